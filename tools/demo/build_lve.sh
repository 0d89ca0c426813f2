#!/bin/bash
# build_lve.sh OUT [flags]: the executable from /repo's sources with the recording licence manager
set -e
H=$(cd "$(dirname "$0")" && pwd); O=$1; shift; S=/repo/src; B=/repo/_build
gcc -DCMAKE_PROJECT_NAME=SEMLA -DCMAKE_PROJECT_VERSION=0 -DLVETARGET=lve -I$S/encrypt_decrypt -I$S/decryptors/include -I$S/license_managers/include -I$S/obfuscators/include \
 -I$S/embedfile -I$S/common -I$S/lve -I$S/tool -I$S/../ThirdParty/uthash -I$B -w -O1 -g -DNDEBUG "$@" \
 $S/lve/*.c "$H/recording_lm.c" $B/decryptors/decryptor/libdecryptor.a $B/libmlle_common.a -lssl -lcrypto -ldl -o "$O"

#!/bin/bash
# run with cwd /repo after the build: 0 on the unchanged tree, 1 when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
gcc -std=gnu11 -D_GNU_SOURCE -DIOT_BUILD_COMPONENTS -g -w -I include -I src/c -fsanitize=address -o $t/demo "$d/demo.c" src/c/data.c src/c/data-json.c src/c/json.c src/c/hash.c src/c/base64.c src/c/uuid.c src/c/time.c src/c/util.c -lpthread -lm || exit 2
(cd $t && timeout 100 ./demo)
r=$?
rm -rf "$t"
exit $r

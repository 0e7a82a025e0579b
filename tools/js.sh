#!/bin/bash
# The JavaScript client and the interface description's generator of /repo, bundled over the
# stand-ins of /verif/js/stubs. Exit 3: they do not bundle.
cd /verif || exit 2
mkdir -p build/log build/js/stubs
exec 9>build/js.lock; flock 9
ES=/opt/veriftools/node/node_modules/.bin/esbuild
L=build/log/js.log
S=/verif/build/js/stubs
# stand-ins as CommonJS: a name one of them lacks is undefined rather than a bundling error
$ES js/stubs/*.mjs --format=cjs --outdir=$S --log-level=error > $L 2>&1 || { tail -30 $L; exit 2; }
sed -i 's#require("\./\([a-z0-9-]*\)\.mjs")#require("./\1.js")#g' $S/*.js
al="--alias:@solana/kit=$S/kit.js --alias:@solana/program-client-core=$S/program-client-core.js
 --alias:@solana-program/system=$S/system.js --alias:@solana-program/token=$S/token.js
 --alias:@solana-program/token-2022=$S/token-2022.js --alias:@solana/sysvars=$S/sysvars.js
 --alias:codama=$S/codama.js --alias:fs=$S/fs-record.js --alias:node:fs=$S/fs-record.js"
b() { $ES "$1" --bundle --platform=node --target=node22 --format=cjs $al --log-level=error --tsconfig-raw='{}' --outfile="$2" >> $L 2>&1 || { tail -30 $L; exit 3; }; }
echo "import * as client from '/repo/clients/js/src/index.ts'; import * as kit from '@solana/kit'; export { client, kit };" > build/js/entry.ts
b build/js/entry.ts build/js/client.cjs
echo "import '/repo/program/idl.ts'; import { written } from 'fs'; export { written };" > build/js/identry.ts
b build/js/identry.ts build/js/idl.cjs

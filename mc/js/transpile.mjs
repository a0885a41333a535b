/* TypeScript to JavaScript, by the compiler the binding is built with */
import { createRequire } from 'node:module';
import fs from 'node:fs';
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const r = ts.transpileModule(fs.readFileSync(process.argv[2],'utf8'),{ reportDiagnostics: true, fileName: 'resdet.mts', compilerOptions: { module: ts.ModuleKind.ES2022, target: ts.ScriptTarget.ES2022 } });
if(r.diagnostics?.length) { console.error(r.diagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText,'\n')).join('\n')); process.exit(1); }
fs.writeFileSync(process.argv[3],r.outputText);

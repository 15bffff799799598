#!/usr/bin/env python3
"""Regenerates the harness table (src/main.rs) of a harness crate: mkmain.py CRATE"""
import glob, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", sys.argv[1], "src"))
mods = sorted(f[:-3] for f in glob.glob('*.rs') if re.match(r'c\d\d\w*\.rs', f))
extra = sorted(f[:-3] for f in glob.glob('*.rs') if not re.match(r'c\d\d\w*\.rs', f) and f != 'main.rs')
out = '#[path = "../../common/sym.rs"]\n#[macro_use]\nmod sym;\n'
for m in mods + extra:
    out += f'mod {m};\n'
out += '\nharnesses! {\n'
for m in mods:
    es = re.findall(r'#\[no_mangle\]\s*pub extern "C" fn (\w+)', open(m + '.rs').read())
    out += '    ' + ' '.join(f'{m}::{e},' for e in es) + '\n'
out += '}\n'
open('main.rs', 'w').write(out)

#!/usr/bin/env python3
"""Writes the compiled catalogue packages under harness/pk from the uniform body."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "../harness/uniform.go"), encoding="utf-8").read()
body = re.search(r"const uniformBody = `(.*?)`", src, re.S).group(1)
for path, name in [("alpha","alpha"),("x/alpha","alpha"),("y/alpha","alpha"),("alpha1","alpha1"),("yaml.v2","yaml"),("go-dash","dash"),("type","typ"),("9p","ninep"),("v2","beta"),("string","str"),("init","initpkg")]:
    d = os.path.join(here, "../harness/pk", path); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "p.go"), "w", encoding="utf-8") as f:
        f.write('// Package %s is a compiled uniform package (generated by tools/gen_pk.py).\npackage %s\n\nimport "reflect"\n' % (name, name) + body + '''
// Types lists the package's types for reflection.
func Types() map[string]reflect.Type {
	return map[string]reflect.Type{
		"T0": reflect.TypeOf(T0{}), "T1": reflect.TypeOf(T1(0)), "S0": reflect.TypeOf(S0{}), "U": reflect.TypeOf(U{}),
		"I0": reflect.TypeOf((*I0)(nil)).Elem(), "I1": reflect.TypeOf((*I1)(nil)).Elem(), "Ünï": reflect.TypeOf(Ünï{}),
	}
}
''')

"""contracts/signatures.json: the parameter names each contract was written for (run when contracts are added)"""
import ast, json, os
SRC = '/repo/src/ajdmom'
out = {}
for d, _, fs in os.walk(SRC):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(d, f)
            m = 'ajdmom.' + os.path.relpath(p, SRC)[:-3].replace('/', '.') if f != '__init__.py' else ('ajdmom.' + os.path.relpath(d, SRC).replace('/', '.')).rstrip('.')
            t = ast.parse(open(p).read())
            def put(q, n): out[q] = [x.arg for x in n.args.posonlyargs + n.args.args]
            for n in t.body:
                if isinstance(n, ast.FunctionDef): put(f'{m}.{n.name}', n)
                if isinstance(n, ast.ClassDef):
                    for x in n.body:
                        if isinstance(x, ast.FunctionDef): put(f'{m}.{n.name}.{x.name}', x)
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'contracts', 'signatures.json'), 'w'), indent=0, sort_keys=True)
print(len(out))

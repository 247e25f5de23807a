#!/usr/bin/env python3
"""Regenerates MANIFEST.json and the "fixed" list of known_findings.json (development helper, no check runs it)."""
import json, subprocess, os
V = '/verif'
FIXED = {  # subject of the commit -> (properties, what failed)
 'end block comments at their first terminator': ('C11', '"/* a */ x /* b */" swallowed the code between two block comments'),
 'lex identifiers starting with true or false as identifiers': ('C11', '"trueish := 1" was lexed as bool literal plus identifier'),
 'keep non-ASCII bytes of the source as they are': ('C11 C08', 'a non-ASCII byte of a string literal was re-encoded'),
 'support all Go escape sequences in string literals': ('C11 C08', '"\\t", "\\r" and "\\\\" stayed undecoded'),
 'report correct positions after multi-line tokens': ('C11', 'row and column were wrong after a raw string or comment with newlines'),
 'lex a minus after an operand as operator': ('C11 C01', '"a-1" was lexed as identifier followed by a negative literal'),
 'make comparison operators left-associative': ('C01', '"a < b == p" was rejected or grouped to the right'),
 'allow repeated negation': ('C01', '"!!a" was rejected'),
 'require a boolean right operand for logical operators': ('C06', '"true && 1" was translated'),
 'do not panic on void function calls in expressions': ('C13', 'a void call within an expression crashed the transpiler'),
 'check every return statement of a function': ('C06', 'only the last return was checked: "if c { return \\"s\\" }" in an int function was translated'),
 'reject void and multi-value calls where a single value is required': ('C06', '"print(f())" with void or two-valued f was translated'),
 'check the types of write data, input prompts, slice elements and subscript ends': ('C06', 'write("f", 1), input(1), []int{"a"}, s[0:"x"] were translated'),
 'find global variables of imported files in nested scopes': ('C09', 'a function of an imported file could not use its file-level variable inside if/for'),
 'assign the defined variable instead of a new one of the same name': ('C02', 'a function assigning a global wrote to a function-local copy'),
 'reject repeated names in definitions, parameters and ranges': ('C07', '"a, a := 1, 2" and "func f(a int, a int)" were translated'),
 'scope for-header variables to the loop and allow several of them': ('C07 C01', 'a for-header variable leaked out of its loop; "for i, j := 0, 5; ..." was rejected'),
 'accept slice literals and multi-value calls in for-headers': ('C01 C03', '"for s := []int{1}; ..." and "for a, b := f(); ..." were rejected'),
 'link every imported file once, reject import cycles and keep all used functions': ('C09 C13', 'a diamond import duplicated code, an import cycle never ended, a used function was removed'),
 'skip blank lines in import groups and switches and imports at the end of a file': ('C12', 'blank lines in import groups and switch bodies were rejected'),
 'evaluate all values of an assignment before assigning them': ('C02', '"a, b = b, a" assigned the new value of a to b'),
 'evaluate operands exactly once and from left to right': ('C04', '"x + f()" read x after f changed it; indices and += targets were evaluated twice'),
 'separate the names of variables and functions from all other names': ('C10', 'a variable called PATH, _h0, IFS or like a function changed the behaviour'),
 'do not let the body of a range loop change its iteration': ('C01', 'assigning the range index or variable inside the body changed the iteration'),
 'limit the nesting depth of statements and expressions': ('C13', 'deeply nested input overflowed the stack'),
 'quote string values in Bash scripts': ('C08', '$, `, \\ and " of string values were expanded or executed by Bash'),
 'print values as they are in Bash scripts': ('C01 C08', 'print("-n") and print("-e", ...) lost text'),
 'support more than nine parameters in Bash scripts': ('C02', 'the tenth parameter was bound to $1 followed by 0'),
 'use a separate increment flag for every loop in Bash scripts': ('C01', 'nested loops shared one increment flag'),
 'evaluate slice elements exactly once in Bash scripts': ('C08 C03', 'slice elements went through eval and echo; copy into a longer slice reported the wrong count'),
 'read input lines as they are in Bash scripts': ('C08', 'read stripped blanks and backslashes'),
 'write and read files without evaluating content and path in Bash scripts': ('C08 C17', 'content and path went through eval; trailing newlines of a file were lost'),
 'quote names and arguments of called programs in Bash scripts': ('C18', 'empty arguments vanished, globs and quotes were interpreted'),
 'keep trailing newlines of captured output in Bash scripts': ('C18', 'all trailing newlines of captured output were dropped'),
 'do not modify the passed arguments of function calls in the Bash converter': ('C14', 'FuncCall changed its caller\'s slice'),
}
exec(open(V+'/tools/fixed_more.py').read()) if os.path.exists(V+'/tools/fixed_more.py') else None
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h%x09%s'],capture_output=True,text=True).stdout
fixed=[]
for l in log.splitlines():
    h,s=l.split('\t',1)
    if s.startswith('fix: '):
        if s[5:] not in FIXED:
            print('undescribed fix:',h,s); continue
        ps,w=FIXED[s[5:]]
        for p in ps.split():
            fixed.append(f'fixed: property={p} {h} {w}')
try: k=json.load(open(V+'/known_findings.json'))
except FileNotFoundError: k={'findings':[]}
k['fixed']=fixed
json.dump(k,open(V+'/known_findings.json','w'),indent=1)
exec(open(V+'/tools/claims.py').read())
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
m={'version':1,'setup_cmd':'bash /verif/check.sh build','hooks':{'guard':'none','enable':'no hooks are needed: the checks execute the unmodified sources symbolically','source_commits':[]},'checks':[],'not_applicable':[],
 'notes':'See DESIGN.md. Every check builds the engine (engine/, Go) into a temporary directory, compiles /repo\'s current sources to SSA and executes them symbolically.'}
for p in props:
    c=CLAIMS.get(p['id'])
    if c is None or 'na' in c:
        m['not_applicable'].append({'property':p['id'],'reason':(c or {}).get('na','no check built yet')})
        continue
    m['checks'].append({'property':p['id'],'quick_cmd':f"bash /verif/check.sh {p['id']} quick",'thorough_cmd':f"bash /verif/check.sh {p['id']} thorough",'evidence_file':f"evidence/{p['id']}.json",'technique':c['technique'],'level':c.get('level','model_checking'),'level_note':c['note']})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']),'claimed')

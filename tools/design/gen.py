import json, os, re, glob
def literal(text, key):
    """concatenated string literals after key:"""
    i = text.find(key)
    if i < 0: return ''
    out, j = [], i + len(key)
    while True:
        m = re.compile(r"\s*\+?\s*'((?:[^'\\]|\\.)*)'").match(text, j)
        if not m: break
        out.append(m.group(1).replace("\\'", "'")); j = m.end()
    return ''.join(out)
def write(ROOT, props):
    D = os.path.join(ROOT, 'tools', 'design')
    notes = json.load(open(os.path.join(D, 'costs.json')))
    out = [open(os.path.join(D, 'head.md')).read()]
    for p in props:
        f = os.path.join(ROOT, 'checks', p['id'] + '.ts')
        out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
        if not os.path.exists(f):
            out.append('Not decided: %s\n' % (p['na'] or 'no check yet')); continue
        t = open(f).read()
        body = t[t.rindex('check<'):] if 'check<' in t else t[t.rindex('check('):]
        out.append('*Enumerated and compared:* %s.\n' % literal(body, '\n  rule:'))
        m = re.search(r"assumptions: \[(.*?)\],\n", body, re.S)
        if m: out.append('*Assumed:* %s.\n' % '; '.join(x.replace("\\'", "'") for x in re.findall(r"'((?:[^'\\]|\\.)*)'", m.group(1))))
        c = notes.get(p['id'])
        if c: out.append('*Cost:* %s.\n' % c)
    out.append(open(os.path.join(D, 'alarms.md')).read())
    k = json.load(open(os.path.join(ROOT, 'known-findings.json')))
    out.append('## Findings which are recorded, not repaired\n')
    for x in k['findings']: out.append('* %s `%s`: %s' % (x['property'], x['signature'], x['what']))
    out.append('\n## Repaired defects (one "fix:" commit each)\n')
    for x in k['fixed']: out.append('* ' + x.replace('fixed: property=', ''))
    out.append('\n## Planted changes\n\nEach builds, passes the existing tests and is shown by its demonstration; all checks named catch theirs (quick tier).\n\n| change | property | needs | breaks | caught by |\n|---|---|---|---|---|')
    caught = json.load(open(os.path.join(D, 'caught.json')))
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
        out.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['needs'], d['what_it_breaks'], caught.get(i, '%s' % d['property'])))
    extra = os.path.join(D, 'tail.md')
    if os.path.exists(extra): out.append('\n' + open(extra).read())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')

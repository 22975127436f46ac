F = 'selector.py'
V = ['C24']
FMT = r"""    if isinstance(selector, int):
        return "[%d]" % selector
    elif selector is None:
        return "[*]"
    elif not re.match(r'^[a-zA-Z_]\w*\Z', selector):
        return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
    else:
        return ".%s" % selector
"""
SCAN = """        text_item = m.group('key')
        if text_item is not None:
            text_item = re.sub(r'\\\\(.)', lambda m: m.group(1), text_item)
        else:
            text_item = m.group('attr')

        if text_item is not None:
            fs.append(text_item)
        else:
            idx_item = m.group('idx')
            if idx_item:
                fs.append(int(idx_item))
            elif m.group('wild'):
                fs.append(None)
"""
ESC = r'''.replace("\\", "\\\\").replace("'", "\\'")'''
MUTS = [
    ('dollar', F, r"\w*\Z'", r"\w*$'", V, 'bad'),
    ('no anchor', F, r"\w*\Z'", r"\w*'", V, 'bad'),
    ('ident any', F, r"'^[a-zA-Z_]\w*\Z'", r"'^[^\[\].]+\Z'", V, 'bad'),
    ('ident digits ok', F, r"'^[a-zA-Z_]\w*\Z'", r"'^\w+\Z'", V, 'ok'),
    ('ident ascii ok', F, r"'^[a-zA-Z_]\w*\Z'", r"'^[a-zA-Z_][a-zA-Z0-9_]*\Z'", V, 'ok'),
    ('ident fullmatch ok', F, r"re.match(r'^[a-zA-Z_]\w*\Z', selector)",
     r"re.fullmatch(r'[a-zA-Z_]\w*', selector)", V, 'ok'),
    ('ident dash', F, r"'^[a-zA-Z_]\w*\Z'", r"'^[a-zA-Z_][\w-]*\Z'", V, 'bad'),
    ('tok ascii', F, r"\.(?P<attr>\w+)", r"\.(?P<attr>[a-zA-Z0-9_]+)", V, 'bad'),
    ('esc order', F, ESC, r'''.replace("'", "\\'").replace("\\", "\\\\")''', V, 'bad'),
    ('esc no bs', F, ESC, r'''.replace("'", "\\'")''', V, 'bad'),
    ('esc none', F, ESC, '', V, 'bad'),
    ('unesc quote only', F, r"re.sub(r'\\(.)', lambda", r"re.sub(r'\\([\'])', lambda", V, 'bad'),
    ('unesc gone', F, "            text_item = re.sub(r'\\\\(.)', lambda m: m.group(1), text_item)\n", "            pass\n", V, 'bad'),
    ('unesc str ok', F, "lambda m: m.group(1), text", "r'\\1', text", V, 'ok'),
    ('unesc named ok', F, r"re.sub(r'\\(.)', lambda m: m.group(1), text", "_unescape(text", V, 'any'),
    ('neg idx', F, r'(?P<idx>-?\d+)', r'(?P<idx>\d+)', V, 'bad'),
    ('idx one digit', F, r'(?P<idx>-?\d+)', r'(?P<idx>-?\d)', V, 'bad'),
    ('idx 0', F, 'if idx_item:', 'if idx_item and idx_item != "0":', V, 'any'),
    ('empty key', F, """        text_item = m.group('key')
        if text_item is not None:""", """        text_item = m.group('key')
        if text_item:""", V, 'bad'),
    ('empty key 2', F, """        if text_item is not None:
            fs""", """        if text_item:
            fs""", V, 'bad'),
    ('idx str', F, 'fs.append(int(idx_item))', 'fs.append(idx_item)', V, 'bad'),
    ('idx abs', F, 'fs.append(int(idx_item))', 'fs.append(abs(int(idx_item)))', V, 'any'),
    ('wild lost', F, """            elif m.group('wild'):
                fs.append(None)
""", '', V, 'bad'),
    ('key quote class', F, r"'(?P<key>(?:[^'\\]|\\.)*)'", r"'(?P<key>[^']*)'", V, 'bad'),
    ('key greedy', F, r"'(?P<key>(?:[^'\\]|\\.)*)'", r"'(?P<key>.*)'", V, 'bad'),
    ('key lazy', F, r"'(?P<key>(?:[^'\\]|\\.)*)'", r"'(?P<key>.*?)'", V, 'bad'),
    ('key plus', F, r"'(?P<key>(?:[^'\\]|\\.)*)'", r"'(?P<key>(?:[^'\\]|\\.)+)'", V, 'bad'),
    ('key cls ok', F, r"'(?P<key>(?:[^'\\]|\\.)*)'", r"'(?P<key>(?:\\.|[^\\'])*)'", V, 'ok'),
    ('no bracket', F, "        )\\]''',", "        )\\]?''',", V, 'any'),
    ('fmt star', F, 'return "[*]"', 'return "[]"', V, 'bad'),
    ('fmt str', F, '''return "[%d]" % selector''', '''return ".%d" % selector''', V, 'bad'),
    ('fmt star idx', F, 'return "[*]"', 'return "[0]"', V, 'bad'),
    ('skip none', F, 'for x in self.selectors)', 'for x in self.selectors if x is not None)', V, 'bad'),
    ('skip last', F, 'for x in self.selectors)', 'for x in self.selectors[:-1])', V, 'bad'),
    ('sep', F, 'return u"".join(_fmt', 'return u".".join(_fmt', V, 'bad'),
    ('order fmt ok', F, FMT, r"""    if selector is None:
        return "[*]"
    if isinstance(selector, int):
        return "[{}]".format(selector)
    if re.match(r'^[a-zA-Z_]\w*\Z', selector):
        return "." + selector
    quoted = selector.replace("\\", "\\\\")
    quoted = quoted.replace("'", "\\'")
    return f"['{quoted}']"
""", V, 'ok'),
    ('loop ok', F, '        return u"".join(_fmt_selector_path(x) for x in self.selectors)\n', """        parts = []
        for x in self.selectors:
            parts.append(_fmt_selector_path(x))
        return "".join(parts)
""", V, 'ok'),
    ('scan ok', F, SCAN, """        if m.group('wild') is not None:
            fs.append(None)
        elif m.group('idx') is not None:
            fs.append(int(m.group('idx')))
        elif m.group('attr') is not None:
            fs.append(m.group('attr'))
        else:
            fs.append(re.sub(r'\\\\(.)', r'\\1', m.group('key')))
""", V, 'ok'),
    ('scan finditer ok', F, 're.finditer(_PATH_TOK, path)', '_PATH_TOK.finditer(path)', V, 'ok'),
    ('scan lastgroup ok', F, SCAN, """        kind = m.lastgroup
        if kind == 'wild':
            fs.append(None)
        elif kind == 'idx':
            fs.append(int(m.group('idx')))
        elif kind == 'attr':
            fs.append(m.group(kind))
        else:
            fs.append(re.sub(r'\\\\(.)', r'\\1', m.group(kind)))
""", V, 'ok'),
    ('scan groupdict ok', F, SCAN, """        d = m.groupdict()
        if d['wild']:
            fs.append(None)
        elif d['idx']:
            fs.append(int(d['idx']))
        elif d['attr']:
            fs.append(d['attr'])
        else:
            fs.append(re.sub(r'\\\\(.)', r'\\1', d['key']))
""", V, 'ok'),
    ('scan gen ok', F, [(F, 'return cls(_scan_selector_path(path))', 'return cls(_element(m) for m in _PATH_TOK.finditer(path))'), (F, 'def _scan_selector_path', """def _element(m):
    attr, idx, wild, key = m.group('attr', 'idx', 'wild', 'key')
    if wild:
        return None
    if idx:
        return int(idx)
    if attr:
        return attr
    return re.sub(r'\\\\(.)', r'\\1', key)


def _scan_selector_path""")], None, V, 'ok'),
    ('scan break', F, "                fs.append(None)\n\n    return fs", "                fs.append(None)\n                break\n\n    return fs", V, 'bad'),
    ('from_path', F, 'return cls(_scan_selector_path(path))', 'return cls(_scan_selector_path(path)[1:])', V, 'any'),
    ('from_path base', F, 'return cls(_scan_selector_path(path))', 'return cls(_scan_selector_path(path.strip()))', V, 'any'),
    ('b23- idx0a', 'selector.py',
     "            if idx_item:\n                fs.append(int(idx_item))\n            elif m.group('wild'):\n                fs.append(None)\n\n    return fs",
     "            if idx_item:\n                if int(idx_item):\n                    fs.append(int(idx_item))\n            elif m.group('wild'):\n                fs.append(None)\n\n    return fs",
     C24, 'bad'),
    ('b23- unesc', 'selector.py',
     "            text_item = re.sub(r'\\\\(.)', lambda m: m.group(1), text_item)\n        else:\n            text_item = m.group('attr')\n\n        if text_item is not None:\n            fs.append(text_item)",
     "            text_item = text_item.replace('\\\\', '')\n        else:\n            text_item = m.group('attr')\n\n        if text_item is not None:\n            fs.append(text_item)",
     C24, 'bad'),
]

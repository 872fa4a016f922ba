"""Mechanical, per-run attachment of loop contracts to a copy of /repo/mdbx.c.

Only text of the form  __CPROVER_assigns(...) / __CPROVER_loop_invariant(...) /
__CPROVER_decreases(...)  is inserted, on the same line as (right after) the
header of the n-th loop of a named function.  Nothing is removed or reordered:
deleting the inserted clauses gives back the file of /repo byte for byte.

One further rewrite concerns the verifier's memory model, not the code: the
macro  ptr_disp(ptr, disp)  of mdbx-internals.h moves a pointer by a byte
distance through a round trip over intptr_t, which makes CBMC lose the object
the pointer refers to.  pointer_disp() restates the macro as the equivalent
byte arithmetic on char *; only the exact known definition is rewritten, any
other text is left alone.
"""
import re

DISP_OLD = '((void *)(((intptr_t)(ptr)) + ((intptr_t)(disp))))'
DISP_NEW = '((void *)(((char *)(ptr)) + ((intptr_t)(disp))))'


def pointer_disp(hdr):
    """returns (header text, number of definitions rewritten)"""
    n = 0
    out = []
    for line in hdr.split('\n'):
        m = re.match(r'\s*#\s*define\s+ptr_disp\(ptr,\s*disp\)\s+(.*?)\s*$', line)
        if m and re.sub(r'\s+', '', m.group(1)) == re.sub(r'\s+', '', DISP_OLD):
            line = '#define ptr_disp(ptr, disp) ' + DISP_NEW
            n += 1
        out.append(line)
    return '\n'.join(out), n


def member_index(src, member):
    """E->member[I]  ->  (*(E->member + (I))): the definition of the subscript, for a trailing array that the
    code indexes past its declared bound (the verifier treats such a subscript as undetermined)"""
    n = 0
    pat = re.compile(r'\b([A-Za-z_]\w*)->' + re.escape(member) + r'\[')
    i = 0
    while True:
        m = pat.search(src, i)
        if not m:
            return src, n
        j = _match(src, m.end() - 1, '[', ']')
        new = '(*(%s->%s + (%s)))' % (m.group(1), member, src[m.end():j - 1])
        src = src[:m.start()] + new + src[j:]
        i = m.start() + len(new)
        n += 1


def _skip_ws_comments(s, i):
    while i < len(s):
        if s[i].isspace():
            i += 1
        elif s.startswith('/*', i):
            i = s.index('*/', i) + 2
        elif s.startswith('//', i):
            i = s.index('\n', i) + 1
        else:
            break
    return i


def _match(s, i, op, cl):
    """s[i] == op; return index just after the matching cl (strings/comments aware)."""
    d = 0
    while i < len(s):
        c = s[i]
        if s.startswith('/*', i):
            i = s.index('*/', i) + 2
            continue
        if s.startswith('//', i):
            i = s.index('\n', i)
            continue
        if c == '"' or c == "'":
            q = c
            i += 1
            while s[i] != q:
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c == op:
            d += 1
        elif c == cl:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def find_func(src, name):
    for m in re.finditer(r'(?m)^[^\n#/ \t}][^\n;]*?\b' + re.escape(name) + r'\(', src):
        try:
            i = _match(src, m.end() - 1, '(', ')')
        except ValueError:
            continue
        j = _skip_ws_comments(src, i)
        if src[j] == '{':
            return j, _match(src, j, '{', '}')
    return None


def loops(src, a, b):
    """positions (just after header) of the for/while loops in src[a:b], skipping comments/strings
    and the tails of do-while loops."""
    out = []
    i = a
    do_depth = []  # brace depth bookkeeping for do { } while
    depth = 0
    do_pos = []
    closing_do = False
    while i < b:
        if src.startswith('/*', i):
            i = src.index('*/', i) + 2
            continue
        if src.startswith('//', i):
            i = src.index('\n', i)
            continue
        c = src[i]
        if c in '"\'':
            q = c
            i += 1
            while src[i] != q:
                i += 2 if src[i] == '\\' else 1
            i += 1
            closing_do = False
            continue
        if c == '#' and src[:i].rstrip(' \t').endswith('\n'):
            j = src.index('\n', i)
            while src[j - 1] == '\\':
                j = src.index('\n', j + 1)
            i = j
            continue
        m = re.compile(r'[A-Za-z_]\w*').match(src, i)
        if m:
            w = m.group(0)
            i = m.end()
            if w == 'do':
                j = _skip_ws_comments(src, i)
                # a do-loop: counted at its trailing while(...), the contract goes after `do`
                do_depth.append(depth if src[j] == '{' else -1)
                do_pos.append(i)
            elif w in ('for', 'while'):
                j = _skip_ws_comments(src, i)
                if src[j] == '(':
                    e = _match(src, j, '(', ')')
                    kind = w
                    if w == 'while' and closing_do:
                        kind = 'do'
                    out.append((kind, do_pos.pop() if kind == 'do' and do_pos else e))
                    i = e
            closing_do = False
            continue
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            closing_do = bool(do_depth) and do_depth[-1] == depth
            if closing_do:
                do_depth.pop()
            i += 1
            continue
        if not c.isspace():
            closing_do = False
        i += 1
    return out


def annotate(src, anns):
    """anns: list of (func, loop_index, text). Returns (new_src, missing[])"""
    ins = []
    missing = []
    for func, k, text in anns:
        r = find_func(src, func)
        if not r:
            missing.append((func, k, 'function not found'))
            continue
        ls = loops(src, *r)
        if k >= len(ls):
            missing.append((func, k, 'loop not found'))
            continue
        ins.append((ls[k][1], ' ' + ' '.join(text.split()) + ' '))
    ins.sort(reverse=True)
    for pos, t in ins:
        src = src[:pos] + t + src[pos:]
    return src, missing

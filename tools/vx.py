"""Mechanical extraction of /repo's functions into verifier input.

A proof file (proofs/*.rs) is ordinary Verus text plus blocks

    //@fn src/huffman.rs HuffmanDecoder::decode      (or //@item src/parser.rs ScanInfo)
    //@rw NAME            apply a rewrite of REWRITES to the source tokens
    //@sub `a` => `b`     apply a rewrite given in place
    <the function, with everything that is not executable source between /*@ and @*/>
    //@end

The text between the markers is ghost: contracts, invariants, proof blocks. What is left after removing it must be
the current source of the function (token for token, after the rewrites). What is emitted is always the *current*
source with the ghost text inserted; if the source differs from the text the block was written for, the ghost text
is carried over by aligning the two token sequences, and the difference is reported.
"""
import difflib, re, sys, os

REPO = os.environ.get('VERIF_REPO', '/repo')

LEX = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0[xob][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:_?[uif](?:8|16|32|64|128|size))?)
 |(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}_\\])
''', re.X | re.S)


class Tok:
    __slots__ = ('t', 'k', 'a', 'b', 'line')

    def __init__(s, t, k, a=0, b=0, line=0):
        s.t, s.k, s.a, s.b, s.line = t, k, a, b, line

    def __eq__(s, o):
        return s.t == o.t

    def __hash__(s):
        return hash(s.t)

    def __repr__(s):
        return s.t


class VxError(Exception):
    pass


def lex(src, base=0, line=1):
    out, i, n = [], 0, len(src)
    while i < n:
        m = LEX.match(src, i)
        if not m:
            raise VxError('cannot tokenize at %r' % src[i:i + 30])
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        if k == 'bc':
            d, j = 1, i + 2
            while d:
                a, b = src.find('/*', j), src.find('*/', j)
                if b < 0:
                    raise VxError('unterminated comment')
                if 0 <= a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            line += src.count('\n', i, j)
            i = j
            continue
        if k not in ('ws', 'lc'):
            # tuple field access t.0.1 must not be lexed as a float
            if k == 'num' and '.' in m.group() and out and out[-1].t == '.':
                t = m.group().split('.')[0]
                out.append(Tok(t, 'num', base + i, base + i + len(t), line))
                i += len(t)
                continue
            out.append(Tok(m.group(), k, base + i, base + m.end(), line))
        line += src.count('\n', i, m.end())
        i = m.end()
    return out


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def match(toks, i):
    """index of the bracket closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].t in OPEN:
            d += 1
        elif toks[j].t in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise VxError('unbalanced')


class Item:
    def __init__(s, kind, path, toks, attrs, header=None):
        s.kind, s.path, s.toks, s.attrs, s.header = kind, path, toks, attrs, header


def items(toks, prefix='', out=None):
    out = [] if out is None else out
    i, n = 0, len(toks)
    while i < n:
        attrs, start = [], i
        while i < n and toks[i].t == '#':
            j = i + 1
            if toks[j].t == '!':
                j += 1
            e = match(toks, j)
            attrs.append(''.join(t.t for t in toks[i:e + 1]))
            i = e + 1
        if i >= n:
            break
        body = i
        while toks[i].t in ('pub', 'unsafe', 'async', 'default') or (toks[i].t == 'const' and toks[i + 1].t in ('fn', 'unsafe')) or toks[i].t == 'extern' and toks[i + 1].t != 'crate' and toks[i+1].k != 'str':
            if toks[i].t == 'pub' and toks[i + 1].t == '(':
                i = match(toks, i + 1) + 1
            else:
                i += 1
        kw = toks[i].t
        if kw in ('fn', 'struct', 'enum', 'trait', 'union', 'mod', 'impl', 'type', 'const', 'static', 'use', 'extern') or kw == 'macro_rules':
            name = toks[i + 1].t
            j = i + 1
            depth = 0
            while True:
                t = toks[j].t
                if t in '([' and t:
                    j = match(toks, j) + 1
                    continue
                if kw in ('const', 'static', 'use', 'type') and t == '{':
                    j = match(toks, j) + 1
                    continue
                if t == '{' or t == ';':
                    break
                j += 1
            end = match(toks, j) if toks[j].t == '{' else j
            if kw == 'macro_rules':
                name = toks[i + 2].t
            if kw == 'impl':
                h = toks[i + 1:j]
                # drop generic parameters and where clauses
                hs, d, k = [], 0, 0
                for t in h:
                    if t.t == 'where':
                        break
                    if t.t == '<':
                        d += 1
                    elif t.t == '>':
                        d -= 1
                    elif t.t == '>>':
                        d -= 2
                    elif d == 0:
                        hs.append(t.t)
                if 'for' in hs:
                    hs = hs[hs.index('for') + 1:]
                hs = [x for x in hs if re.match(r'[A-Za-z_]', x) and x not in ('dyn', 'mut')]
                tn = hs[-1] if hs else '?'
                out.append(Item('impl', prefix + 'impl ' + tn, toks[body:end + 1], attrs, toks[i:j]))
                items(toks[j + 1:end], prefix + tn + '::', out)
            elif kw in ('mod', 'trait') and toks[j].t == '{':
                out.append(Item(kw, prefix + name, toks[body:end + 1], attrs))
                if not any('cfg(test)' in a for a in attrs):
                    items(toks[j + 1:end], prefix + name + '::', out)
            else:
                out.append(Item(kw, prefix + name, toks[body:end + 1], attrs))
            i = end + 1
        else:
            # macro invocation or stray token at item level
            j = i
            while j < n and toks[j].t not in ('{', ';', '('):
                j += 1
            i = (match(toks, j) + 1) if j < n and toks[j].t in OPEN else j + 1
    return out


_cache = {}


def source(file):
    if file not in _cache:
        s = open(os.path.join(REPO, file)).read()
        _cache[file] = items(lex(s))
    return _cache[file]


def find(file, path, sel=None):
    c = [x for x in source(file) if x.path == path and x.kind != 'impl']
    if sel:
        c = [x for x in c if any(sel in a for a in x.attrs)]
    if not c and '::' in path:
        # a function nested in another one
        outer, name = path.rsplit('::', 1)
        for o in source(file):
            if o.path == outer and o.kind == 'fn':
                for i in range(1, len(o.toks) - 1):
                    if o.toks[i].t == 'fn' and o.toks[i + 1].t == name:
                        c += items(o.toks[i:body_end(o.toks, i) + 1])[:1]
    if len(c) != 1:
        raise VxError('%s: %d definitions of %s' % (file, len(c), path))
    return c[0]


def body_end(toks, i):
    while toks[i].t != '{':
        i = match(toks, i) + 1 if toks[i].t in '([' else i + 1
    return match(toks, i)


# ---- rewriting -------------------------------------------------------------------------------------------------

def parse_pat(s):
    """$x: one token, $$x: non-empty balanced token sequence (shortest), $*x: possibly empty, $%x: possibly empty, may contain ;"""
    out = []
    for m in re.finditer(r'\$(\$|\*|%)?([A-Za-z_]\w*)|((?:[^$]|\$(?![\$\*%A-Za-z_]))+)', s):
        if m.group(2):
            out.append(('var', m.group(1) or '', m.group(2)))
        else:
            out += [('tok', t.t) for t in lex(m.group(3))]
    return out


def match_pat(p, pi, toks, i, env):
    if pi == len(p):
        return i, env
    e = p[pi]
    if e[0] == 'tok':
        if i < len(toks) and toks[i].t == e[1]:
            return match_pat(p, pi + 1, toks, i + 1, env)
        return None
    _, kind, name = e
    if kind == '':
        if i < len(toks) and toks[i].t not in OPEN and toks[i].t not in CLOSE:
            if name in env and [t.t for t in env[name]] != [toks[i].t]:
                return None
            return match_pat(p, pi + 1, toks, i + 1, {**env, name: [toks[i]]})
        return None
    j = i
    first = kind in '*%'
    while True:
        if first or j > i:
            if name not in env or [t.t for t in env[name]] == [t.t for t in toks[i:j]]:
                r = match_pat(p, pi + 1, toks, j, {**env, name: toks[i:j]})
                if r:
                    return r
        first = True
        if j >= len(toks) or toks[j].t in CLOSE or (toks[j].t == ';' and kind != '%'):
            return None
        j = match(toks, j) + 1 if toks[j].t in OPEN else j + 1


def rewrite(toks, pat, rep):
    p, r = parse_pat(pat), parse_pat(rep)
    out, i, n = [], 0, 0
    while i < len(toks):
        m = match_pat(p, 0, toks, i, {})
        if m:
            end, env = m
            line = toks[i].line
            for e in r:
                if e[0] == 'tok':
                    out.append(Tok(e[1], 'id', 0, 0, line))
                else:
                    out += env[e[2]]
            i, n = end, n + 1
        else:
            out.append(toks[i])
            i += 1
    return out, n


def outline(toks, pat, call, header):
    """the statements $body become a function of their own (header, with $body in it), written behind the function"""
    p = parse_pat(pat)
    for i in range(len(toks)):
        m = match_pat(p, 0, toks, i, {})
        if m:
            end, env = m
            line = toks[i].line

            def fill(r):
                out = []
                for e in parse_pat(r):
                    out += [Tok(e[1], 'id', 0, 0, line)] if e[0] == 'tok' else env[e[2]]
                return out
            return toks[:i] + fill(call) + toks[end:] + fill(header), 1
    return toks, 0


# Rewrites into the subset Verus accepts; each preserves the meaning of the code.
REWRITES = {
    # iterator adapters over slices as index loops
    'enumerate': [('for ( $i , $x ) in $$e . iter ( ) . enumerate ( ) {', 'for $i in 0 .. $$e . len ( ) { let $x = & $$e [ $i ] ;')],
    'enumerate_ref': [('for ( $i , & $x ) in $$e . iter ( ) . enumerate ( ) {', 'for $i in 0 .. $$e . len ( ) { let $x = $$e [ $i ] ;')],
    # Result::map with a closure that ignores its argument
    'map_ignore': [('$$e . map ( | _ | $$f )', 'match $$e { Ok ( _ ) => Ok ( $$f ) , Err ( e ) => Err ( e ) }')],
    # error texts are irrelevant to every contract
    'errtext': [('Error :: Format ( $$s . to_owned ( ) , )', 'Error :: Format ( error_text ( ) )'),
                ('Error :: Format ( $$s . to_owned ( ) )', 'Error :: Format ( error_text ( ) )'),
                ('Error :: Format ( $$s . to_string ( ) , )', 'Error :: Format ( error_text ( ) )'), ('Error :: Format ( $$s . to_string ( ) )', 'Error :: Format ( error_text ( ) )'),
                ('Error :: Format ( format ! ( $$s ) )', 'Error :: Format ( error_text ( ) )')],
    # debug assertions are obligations
    'debug_assert': [('debug_assert ! ( $$e ) ;', 'assert_exec ( $$e ) ;'), ('debug_assert_eq ! ( $$a , $$b ) ;', 'assert_exec ( $$a == $$b ) ;'),
                     ('assert ! ( $$e ) ;', 'assert_exec ( $$e ) ;'), ('assert_eq ! ( $$a , $$b ) ;', 'assert_exec ( $$a == $$b ) ;')],
    'i32_from': [('i32 :: from ( $$e )', '( ( $$e ) as i32 )')],
    'usize_from': [('usize :: from ( $$e )', '( ( $$e ) as usize )')],
    'fold_vec': [('let $h = $$e . iter ( ) . enumerate ( ) . fold ( Vec :: new ( ) , | mut $acc , ( $i , & $v ) | { $%b $acc } ) ;',
                  'let mut $acc = Vec :: new ( ) ; for $i in 0 .. $$e . len ( ) { let $v = $$e [ $i ] ; $%b } let $h = $acc ;')],
    'extend_repeat': [('$acc . extend ( iter :: repeat ( $$x ) . take ( $$n ) ) ;', 'vec_extend_repeat ( & mut $acc , $$x , $$n ) ;')],
    'enumerate_filter': [('for ( $i , & $x ) in $$e . iter ( ) . enumerate ( ) . filter ( | & ( _ , & $x ) | $$c ) { $%b }',
                          'for $i in 0 .. $$e . len ( ) { let $x = $$e [ $i ] ; if $$c { $%b } }')],
    'enumerate_pair': [('for ( $i , & ( $a , $b ) ) in $$e . iter ( ) . enumerate ( ) {', 'for $i in 0 .. $$e . len ( ) { let ( $a , $b ) = $$e [ $i ] ;')],
    'fill_slice': [('for $b in & mut $x [ $s .. ] [ .. $$n ] { * $b = $v ; }', 'for k in $s .. $s + ( $$n ) { $x [ k ] = $v ; }')],
    'ok_or_else': [('= $$e . ok_or_else ( || $$f ) ?', '= match $$e { Some ( v ) => v , None => return Err ( $$f ) }')],
    'to_vec': [('$x . to_vec ( )', 'slice_to_vec ( $x )')],
    # panics are obligations
    'panic': [('panic ! ( )', 'unreached ( )'), ('panic ! ( $$a )', 'unreached ( )'), ('unreachable ! ( )', 'unreached ( )')],
    'any': [('$x . iter ( ) . any ( | $c | $$e )', '{ let mut found = false ; for ix in 0 .. $x . len ( ) { let $c = & $x [ ix ] ; if $$e { found = true ; } } found }')],
    'any_val': [('$x . iter ( ) . any ( | & $c | $$e )', '{ let mut found = false ; for ix in 0 .. $x . len ( ) { let $c = $x [ ix ] ; if $$e { found = true ; } } found }')],
    'position': [('$y . $x . iter ( ) . position ( | $c | $$e )', '{ let mut at = None ; for ix in 0 .. $y . $x . len ( ) { let $c = & $y . $x [ ix ] ; if at . is_none ( ) && $$e { at = Some ( ix ) ; } } at }'),
                 ('$x . iter ( ) . position ( | $c | $$e )', '{ let mut at = None ; for ix in 0 .. $x . len ( ) { let $c = & $x [ ix ] ; if at . is_none ( ) && $$e { at = Some ( ix ) ; } } at }')],
    'max_field': [('$x . iter ( ) . map ( | $c | $$e ) . max ( ) . unwrap ( )', '{ let mut $c = & $x [ 0 ] ; let mut most = $$e ; for ix in 1 .. $x . len ( ) { $c = & $x [ ix ] ; if $$e > most { most = $$e ; } } most }')],
    'for_mut': [('for $c in & mut self . $x {', 'for ix in 0 .. self . $x . len ( ) { let $c = & mut self . $x [ ix ] ;')],
    'sum': [('$x . iter ( ) . map ( | & $i | $$e ) . fold ( 0 , ops :: Add :: add )', '{ let mut acc = 0 ; for ix in 0 .. $x . len ( ) { let $i = $x [ ix ] ; acc = acc + ( $$e ) ; } acc }')],
    'iter_mut_set': [('for $x in $t . iter_mut ( ) { * $x = $$e ; }', 'for ix in 0 .. $t . len ( ) { $t [ ix ] = $$e ; }')],
    # slices of components, pixel loops
    'destructure': [('let [ $a , $b , $c ] : & [ $%t ; 3 ] = $d . try_into ( ) . unwrap ( ) ;', 'let ( $a , $b , $c ) = ( & $d [ 0 ] , & $d [ 1 ] , & $d [ 2 ] ) ;'),
                    ('let [ $a , $b , $c , $e ] : & [ $%t ; 4 ] = $d . try_into ( ) . unwrap ( ) ;', 'let ( $a , $b , $c , $e ) = ( & $d [ 0 ] , & $d [ 1 ] , & $d [ 2 ] , & $d [ 3 ] ) ;')],
    'assertmsg': [('assert ! ( $$e , $s ) ;', 'assert_exec ( $$e ) ;')],
    'zip3': [('for ( ( ( $k , $a ) , $b ) , $c ) in $o . chunks_exact_mut ( 3 ) . zip ( $x . iter ( ) ) . zip ( $y . iter ( ) ) . zip ( $z . iter ( ) ) {',
              'let pixels = min2 ( min2 ( min2 ( $o . len ( ) / 3 , $x . len ( ) ) , $y . len ( ) ) , $z . len ( ) ) ; for ix in 0 .. pixels { let ( $a , $b , $c ) = ( & $x [ ix ] , & $y [ ix ] , & $z [ ix ] ) ;'),
             ('for ( ( ( $k , $a ) , $b ) , $c ) in $o . chunks_exact_mut ( 3 ) . zip ( $x . iter ( ) ) . zip ( $y . iter ( ) ) . zip ( $z . iter ( ) ) . skip ( $$s ) {',
              'let pixels = min2 ( min2 ( min2 ( $o . len ( ) / 3 , $x . len ( ) ) , $y . len ( ) ) , $z . len ( ) ) ; for ix in $$s .. pixels { let ( $a , $b , $c ) = ( & $x [ ix ] , & $y [ ix ] , & $z [ ix ] ) ;'),
             ('chunk [ $k ] = $$e ;', 'output [ ix * 3 + $k ] = $$e ;')],
    'zip4': [('for ( ( ( ( $k , $a ) , $b ) , $c ) , $d ) in $o . chunks_exact_mut ( 4 ) . zip ( $x . iter ( ) ) . zip ( $y . iter ( ) ) . zip ( $z . iter ( ) ) . zip ( $w . iter ( ) ) {',
              'let pixels = min2 ( min2 ( min2 ( min2 ( $o . len ( ) / 4 , $x . len ( ) ) , $y . len ( ) ) , $z . len ( ) ) , $w . len ( ) ) ; for ix in 0 .. pixels { let ( $a , $b , $c , $d ) = ( & $x [ ix ] , & $y [ ix ] , & $z [ ix ] , & $w [ ix ] ) ;'),
             ('chunk [ $k ] = $$e ;', 'output [ ix * 4 + $k ] = $$e ;')],
    'sub_ref': [('= 255 - $x ;', '= 255 - * $x ;')],
    'zip_pixels': [('for ( $i , $k ) in $o . chunks_exact_mut ( $d . len ( ) ) . enumerate ( ) { for ( $s , $c ) in $k . iter_mut ( ) . zip ( $d ) { * $s = $$e ; } }',
                    'for $i in 0 .. $o . len ( ) / $d . len ( ) { for ix in 0 .. $d . len ( ) { let $c = & $d [ ix ] ; $o [ $i * $d . len ( ) + ix ] = $$e ; } }')],
    'opassign': [('$a %s= $$e ;' % o, '$a = $a %s ( $$e ) ;' % o) for o in '+*'],
    'mulc': [('$x * ( Wrapping ( $$c ) )', 'mulc ( $x , $$c )'), ('$x * Wrapping ( $$c )', 'mulc ( $x , $$c )'), ('( $$e ) * Wrapping ( $$c )', 'mulc ( $$e , $$c )')],
    'array_params': [('( [ $a , $b , $c , $d ] : [ Wrapping < i32 > ; 4 ] $*r ) -> $$t {', '( s : [ Wrapping < i32 > ; 4 ] $*r ) -> $$t { let ( $a , $b , $c , $d ) = ( s [ 0 ] , s [ 1 ] , s [ 2 ] , s [ 3 ] ) ;'),
                     ('( [ $a , $b , $c , $d , $e , $f , $g , $h ] : [ Wrapping < i32 > ; 8 ] $*r ) -> $$t {', '( s : [ Wrapping < i32 > ; 8 ] $*r ) -> $$t { let ( $a , $b , $c , $d , $e , $f , $g , $h ) = ( s [ 0 ] , s [ 1 ] , s [ 2 ] , s [ 3 ] , s [ 4 ] , s [ 5 ] , s [ 6 ] , s [ 7 ] ) ;')],
    'late_pair': [('let ( $a , $b ) ;', 'let $a ; let $b ;')],
    'kernel_pattern': [('let Kernel { xs : [ $a , $b , $c , $d ] , ts : [ $e , $f , $g , $h ] , } = $$k ;',
                        'let ker = $$k ; let ( $a , $b , $c , $d ) = ( ker . xs [ 0 ] , ker . xs [ 1 ] , ker . xs [ 2 ] , ker . xs [ 3 ] ) ; let ( $e , $f , $g , $h ) = ( ker . ts [ 0 ] , ker . ts [ 1 ] , ker . ts [ 2 ] , ker . ts [ 3 ] ) ;')],
    'clamp': [('$x . 0 . max ( 0 ) . min ( 255 ) as u8', 'clamp_u8 ( $x . 0 )'), ('( $$e ) . min ( 255 ) . max ( 0 ) as u8', 'clamp_u8 ( $$e )')],
    'bytestr': 'bytestr',
    'f2f': 'f2f',
    'signature': [('$b [ 0 .. $n ] == * & [ $$s ]', 'starts_with ( & $b , $n , & [ $$s ] )'), ('$b [ $n .. ] . to_vec ( )', 'slice_tail ( & $b , $n )')],
}

GHOST_HEADS = ('requires', 'ensures', 'invariant', 'invariant_except_break', 'decreases', 'proof', 'assert', 'let ghost', 'let tracked', '(', ')', '#[verifier', '#[trigger', 'broadcast use', 'by', 'reveal', 'returns', 'opens_invariants', 'no_unwind', 'Ghost', 'Tracked', ',', 'via', 'spec', 'pub', 'ghost', 'open', 'r:', 'it:', 'default_ensures', 'calc!', 'assume(', '}')


def split_ghost(text, line0):
    """-> (exec tokens, [(gap, ghost text, line)])"""
    toks, gs, i, line = [], [], 0, line0
    while True:
        a = text.find('/*@', i)
        chunk = text[i:a if a >= 0 else len(text)]
        toks += lex(chunk, 0, line)
        line += chunk.count('\n')
        if a < 0:
            break
        b = text.find('@*/', a)
        if b < 0:
            raise VxError('unterminated ghost text')
        gs.append((len(toks), text[a + 3:b], line))
        line += text.count('\n', a, b + 3)
        i = b + 3
    return toks, gs


def loops(toks):
    n = 0
    for i, t in enumerate(toks):
        if t.t in ('while', 'loop') or (t.t == 'for' and i + 1 < len(toks) and toks[i + 1].t != '<'):
            n += 1
    return n


def expand(text, d, seen=None):
    """//@include FILE; //@stubs FILE: the contracts of FILE only, its proofs are checked in the unit that includes it"""
    inc = re.compile(r'^//@(include|stubs) (\S+)\s*$', re.M)

    seen = set() if seen is None else seen

    def sub(m):
        if m.group(2) in seen:
            return ''
        seen.add(m.group(2))
        t = open(os.path.join(d, m.group(2))).read()
        t = expand(t, d, seen)
        return stubs(t) if m.group(1) == 'stubs' else t
    return inc.sub(sub, text)


STUB = '#[verifier::external_body] /* stub */ '


def stubs(text):
    out, blk, prev = [], None, ''
    for l in text.split('\n'):
        if re.match(r'\s*//@fn\s', l):
            blk = []
        elif blk is not None and re.match(r'\s*//@end\s*$', l):
            t, i = '\n'.join(blk), 0
            while t[i] != '{':
                i = t.index('@*/', i) + 3 if t.startswith('/*@', i) else i + 1
            h = t[:i].replace('/*@', '').replace('@*/', '')
            h = re.sub(r'#\[verifier::\w+(\(.*?\))?\]', '', h)
            out.append(STUB + h + '{ unimplemented!() }')
            blk = None
        elif blk is not None:
            if not re.match(r'\s*//@', l):
                blk.append(l)
        else:
            if re.match(r'(pub )?(broadcast )?proof fn ', l) and 'via_fn' not in prev and 'external_body' not in prev:
                l = STUB + l
            out.append(l)
            prev = l
    return '\n'.join(out)


class Block:
    pass


class Unit:
    """One proof file. .blocks after load; .emit(path) writes verifier input and the line map."""

    def __init__(s, path, mode='verus'):
        s.path, s.mode = path, mode
        s.text = open(path).read()
        s.text = expand(s.text, os.path.dirname(path))
        s.parts, s.blocks = [], []
        cur, blk, line = [], None, 0
        for line, l in enumerate(s.text.split('\n'), 1):
            m = re.match(r'\s*//@(fn|item)\s+(\S+)\s+(\S+)(?:\s+sel=(\S+))?(?:\s+as=(\S+))?\s*$', l)
            if m:
                s.parts.append(('text', '\n'.join(cur) + '\n'))
                blk = Block()
                blk.kind, blk.file, blk.fpath, blk.sel, blk.alias = m.groups()
                blk.rw, blk.lines, blk.line = [], [], line + 1
                cur = []
                continue
            if blk is not None:
                m = re.match(r'\s*//@rw\s+(.*)$', l)
                if m:
                    blk.rw += [(x, None) for x in m.group(1).split()]
                    blk.line = line + 1
                    continue
                m = re.match(r'\s*//@sub\s+`(.*?)`\s*=>\s*`(.*?)`\s*$', l)
                if m:
                    blk.rw.append((m.group(1), m.group(2)))
                    blk.line = line + 1
                    continue
                m = re.match(r'\s*//@outline\s+`(.*?)`\s*=>\s*`(.*?)`\s*as\s*`(.*?)`\s*$', l)
                if m:
                    blk.rw.append((m.group(1), (m.group(2), m.group(3))))
                    blk.line = line + 1
                    continue
                if re.match(r'\s*//@end\s*$', l):
                    s.parts.append(('block', blk))
                    s.blocks.append(blk)
                    blk = None
                    continue
                blk.lines.append(l)
            else:
                cur.append(l)
        if blk is not None:
            raise VxError('%s: missing //@end' % path)
        s.parts.append(('text', '\n'.join(cur) + '\n'))
        for b in s.blocks:
            s.load(b)

    def load(s, b):
        b.base, b.ghost = split_ghost('\n'.join(b.lines), b.line)
        b.status, b.notes, b.rwcount = 'same', [], {}
        try:
            it = find(b.file, b.fpath, b.sel)
        except (VxError, FileNotFoundError) as e:
            b.status, b.cur = 'lost', b.base
            b.notes.append(str(e))
            return
        toks = list(it.toks)
        # field and variant attributes, visibility of fields are dropped
        toks = strip_attrs(toks)
        for a, r in b.rw:
            if r is None and REWRITES[a] == 'bytestr':
                toks = bytestr(toks)
                continue
            if r is None and REWRITES[a] == 'f2f':
                toks = f2f(toks, b.file)
                continue
            if isinstance(r, tuple):
                toks, n = outline(toks, a, r[0], r[1])
                b.rwcount[a] = n
                continue
            rules = [(a, r)] if r is not None else REWRITES[a]
            for pat, rep in rules:
                toks, n = rewrite(toks, pat, rep)
                b.rwcount[pat] = b.rwcount.get(pat, 0) + n
        b.cur = toks
        if [t.t for t in b.base] == [t.t for t in toks]:
            return
        b.status = 'changed'

    def place(s, b):
        """-> list of (gap in cur, ghost text, line)"""
        if b.status == 'same':
            return list(b.ghost)
        if b.status == 'lost':
            return list(b.ghost)
        B, C = [t.t for t in b.base], [t.t for t in b.cur]
        sm = difflib.SequenceMatcher(None, B, C, autojunk=False)
        mp = {}
        for blk in sm.get_matching_blocks():
            for k in range(blk.size):
                mp[blk.a + k] = blk.b + k
        res = []
        for g, text, line in b.ghost:
            p = mp.get(g - 1) if g > 0 else -1
            n = mp.get(g) if g < len(B) else len(C)
            if p is not None and n is not None:
                pos = n if (n == p + 1 or (g < len(B) and B[g] in '{};')) else p + 1
            elif n is not None:
                pos = n
            elif p is not None:
                pos = p + 1
            else:
                b.status = 'lost-anchor'
                b.notes.append('no place for ghost text written at line %d' % line)
                continue
            res.append((pos, text, line))
        if loops(b.base) != loops(b.cur):
            b.status = 'restructured'
            b.notes.append('number of loops changed')
        return res

    def emit(s, out, vacuity=False):
        lines, lmap = [''], {}

        def put(text, tag=None):
            parts = text.split('\n')
            for k, p in enumerate(parts):
                if k:
                    lines.append('')
                if tag and p.strip():
                    lmap[len(lines)] = tag
                lines[-1] += p
        for kind, x in s.parts:
            if kind == 'text':
                put(x)
                continue
            b = x
            pl = {}
            for g, t, l in s.place(b):
                pl.setdefault(g, []).append((t, l))
            name = b.alias or b.fpath
            put('\n')
            first_brace = None
            if vacuity and b.kind == 'fn':
                # the body brace is the last one opened at depth 0
                d = 0
                for k, t in enumerate(b.cur):
                    if t.t == '{' and d == 0:
                        first_brace = k
                    if t.t in OPEN:
                        d += 1
                    elif t.t in CLOSE:
                        d -= 1
            ind = 0
            for k, t in enumerate(b.cur):
                for g, l in pl.get(k, ()):
                    if first_brace is not None and k == first_brace + 1:
                        # hide(..) directives have to stay in front
                        h = re.match(r'\s*((hide|reveal)\([\w:]+\);\s*)*', g).end()
                        put(' ' + g[:h] + '\n', (name, 'ghost', l))
                        put(' proof { assert(false); } \n', (name, 'vacuity', t.line))
                        g, first_brace = g[h:], None
                    put(' ' + g + ' ', (name, 'ghost', l))
                if first_brace is not None and k == first_brace + 1:
                    put(' proof { assert(false); } \n', (name, 'vacuity', t.line))
                    first_brace = None
                put(t.t, (name, 'exec', t.line))
                put('\n' if t.t in ('{', '}', ';') else ' ')
            for g, l in pl.get(len(b.cur), ()):
                put(' ' + g + ' ', (name, 'ghost', l))
            put('\n')
        with open(out, 'w') as f:
            f.write('\n'.join(lines))
        return lmap


def kani_emit(path, out):
    """Input for Kani: //@take FILE FN copies a function of the current source; ``//@cap FILE FN `pattern` => `text` `` puts the
    expressions the pattern binds in the current body of FN into text. Everything else is the harness."""
    res = []
    for l in open(path).read().split('\n'):
        m = re.match(r'\s*//@take\s+(\S+)\s+(\S+)\s*$', l)
        c = re.match(r'\s*//@cap\s+(\S+)\s+(\S+)\s+`(.*?)`\s*=>\s*`(.*?)`\s*$', l)
        if m:
            l = pretty(find(m.group(1), m.group(2)).toks)
        elif c:
            toks = find(c.group(1), c.group(2)).toks
            p = parse_pat(c.group(3))
            hits = [h for h in (match_pat(p, 0, toks, i, {}) for i in range(len(toks))) if h]
            if len(hits) != 1:
                raise VxError('%s %s: the expression looked for occurs %d times' % (c.group(1), c.group(2), len(hits)))
            env = hits[0][1]
            l = ' '.join(e[1] if e[0] == 'tok' else ' '.join(t.t for t in env[e[2]]) for e in parse_pat(c.group(4)))
        res.append(l)
    with open(out, 'w') as f:
        f.write('\n'.join(res))


def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def f2f(toks, file):
    """stbi_f2f(LITERAL) folded to its value: the body of stbi_f2f in the current source, evaluated in IEEE-754 single precision"""
    body = ' '.join(t.t for t in find(file, 'stbi_f2f').toks)
    wrapping = body.startswith('fn stbi_f2f ( x : f32 ) -> Wrapping < i32 > { Wrapping ( (')
    if wrapping:
        body = body.replace('-> Wrapping < i32 > { Wrapping ( ( ', '-> i32 { ( ').replace('as i32 ) }', 'as i32 }')
    m = re.match(r'fn stbi_f2f \( x : f32 \) -> i32 \{ \( x \* (?:([\d.]+)|\( \( 1 << (\w+) \) as f32 \)) \+ ([\d.]+) \) as i32 \}$', body)
    if not m:
        raise VxError('stbi_f2f has an unexpected form: ' + body)
    if m.group(1):
        scale = f32(float(m.group(1)))
    else:
        c = ' '.join(t.t for t in find(file, m.group(2)).toks)
        scale = f32(float(1 << int(re.search(r'= (\d+) ;', c).group(1))))
    half = f32(float(m.group(3)))
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == 'stbi_f2f' and toks[i + 1].t == '(':
            e = match(toks, i + 1)
            lit = ''.join(t.t for t in toks[i + 2:e])
            if not re.match(r'-?[\d.]+$', lit):
                raise VxError('stbi_f2f of ' + lit)
            v = int(f32(f32(f32(float(lit)) * scale) + half))
            for x in (['Wrapping', '('] if wrapping else ['('] if v < 0 else []) + (['-'] if v < 0 else []) + ['%di32' % abs(v)] + ([')'] if v < 0 or wrapping else []):
                out.append(Tok(x, 'num', 0, 0, toks[i].line))
            i = e + 1
        else:
            out.append(toks[i])
            i += 1
    return out


def bytestr(toks):
    """byte string literals as references to array literals"""
    out = []
    for t in toks:
        if t.k == 'str' and t.t.startswith('b'):
            for x in lex('& [ ' + ' , '.join('%du8' % c for c in eval(t.t)) + ' ]'):
                x.line = t.line
                out.append(x)
        else:
            out.append(t)
    return out


def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
            i = match(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def token_diff(b):
    """how the current source of a block differs from the text it was annotated for"""
    B, C = [t.t for t in b.base], [t.t for t in b.cur]
    nd = ni = 0
    txt, calls = [], set()
    base = set(B)
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, B, C, autojunk=False).get_opcodes():
        if op == 'equal':
            continue
        nd += i2 - i1
        ni += j2 - j1
        txt.append('`%s` -> `%s` (line %s)' % (' '.join(B[i1:i2]), ' '.join(C[j1:j2]), b.cur[min(j1, len(C) - 1)].line if C else 0))
        for k in range(j1, j2):
            if re.match(r'[A-Za-z_]', C[k]) and C[k] not in base and k + 1 < len(C) and C[k + 1] in ('(', '!', ':'):
                calls.add(C[k])
    return {'del': nd, 'ins': ni, 'newcalls': sorted(calls), 'text': '; '.join(txt)[:2000], 'status': b.status}


def trusted(path):
    """assumptions written in a proof file: external bodies, assumed or admitted facts, uninterpreted functions"""
    u = Unit(path)
    text = '\n'.join(x if k == 'text' else '\n'.join(x.lines) for k, x in u.parts)
    out = []
    for m in re.finditer(r'external_body\)?\]?\s*\]?\s*((?:pub )?(?:proof |exec )?fn\s+\w+)', text):
        out.append('external (contract assumed): ' + m.group(1))
    for m in re.finditer(r'external_body\] /\* stub \*/\s*((?:pub )?fn\s+\w+)', text):
        out.append('used by its contract, which another unit proves: ' + m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(([^\n]*)', text):
        out.append('%s(%s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'assume_specification[^\n]*', text):
        out.append(m.group(0))
    for m in re.finditer(r'uninterp spec fn \w+', text):
        out.append(m.group(0))
    for b in u.blocks:
        for a, r in b.rw:
            out.append('rewrite before verification in %s: %s' % (b.fpath, a if r is None else 'statements outlined into a function of their own: `%s`' % r[1] if isinstance(r, tuple) else '`%s` => `%s`' % (a, r)))
    return out


def show(file, path, rws, sel=None):
    """print the (rewritten) source of an item, to start a proof block from"""
    it = find(file, path, sel)
    toks = strip_attrs(list(it.toks))
    for a in rws:
        if a == 'bytestr':
            toks = bytestr(toks)
            continue
        if a == 'f2f':
            toks = f2f(toks, file)
            continue
        for pat, rep in ([a] if isinstance(a, tuple) else REWRITES[a]):
            toks, _ = rewrite(toks, pat, rep)
    return toks


if __name__ == '__main__':
    if sys.argv[1] == 'ls':
        for it in source(sys.argv[2]):
            print(it.kind, it.path, it.attrs)
    elif sys.argv[1] == 'emit':
        u = Unit(sys.argv[2])
        u.emit(sys.argv[3])
        for b in u.blocks:
            if b.status != 'same':
                print(b.fpath, b.status, b.notes)
                B, C = [t.t for t in b.base], [t.t for t in b.cur]
                for op in difflib.SequenceMatcher(None, B, C, autojunk=False).get_opcodes():
                    if op[0] != 'equal':
                        print('   ', op[0], ' '.join(B[op[1]:op[2]]), ' => ', ' '.join(C[op[3]:op[4]]), '(line %s)' % (b.cur[min(op[3], len(b.cur)-1)].line,))
    elif sys.argv[1] == 'block':
        # vx.py block FILE PATH [rw,rw..] [pat=>rep ...]: a proof block to start from
        rws = [a for a in sys.argv[4].split(',') if a] if len(sys.argv) > 4 else []
        subs = [tuple(x.split(' ==> ' if ' ==> ' in x else ' => ', 1)) for x in sys.argv[5:]]
        print('//@fn %s %s' % (sys.argv[2], sys.argv[3]))
        if rws:
            print('//@rw ' + ' '.join(rws))
        for p, r in subs:
            print('//@sub `%s` => `%s`' % (p, r))
        ind, line, dep = 0, '', 0
        toks = show(sys.argv[2], sys.argv[3], rws + subs)
        for n, t in enumerate(toks):
            if t.t == '}':
                if line.strip():
                    print('    ' * ind + line)
                ind, line = ind - 1, ''
            dep += t.t in '([' and 1 or t.t in ')]' and -1 or 0
            glue = t.t in (',', ';', ')', ']', '.', '?', ':', '::', '(', '[', '!', '..', '..=') or line.endswith(('(', '[', '.', '::', ' &', '(&', '!', '..', '..='))
            if t.t in '([' and line.endswith(('=', '+', '-', '*', '/', ',', '|', '&', '<', '>', 'if', 'match', 'in', 'return')):
                glue = False
            line += ('' if glue or not line else ' ') + t.t
            nx = toks[n + 1].t if n + 1 < len(toks) else ''
            if t.t == '{' or t.t == ';' and not dep or t.t == '}' and nx not in (';', ',', ')', 'else', '.', '?', 'as', '+'):
                print('    ' * ind + line)
                line = ''
                ind += t.t == '{'
        print(line + '//@end')
    elif sys.argv[1] == 'src':
        it = find(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else None)
        s = open(os.path.join(REPO, sys.argv[2])).read()
        print(s[it.toks[0].a:it.toks[-1].b])

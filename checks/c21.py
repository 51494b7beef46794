#!/usr/bin/env python3
"""C21: misuse of a built-in raises the documented error, names it, and changes nothing."""
import sys, os, re, json, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.terms import *
import random

A, C = Atom, Cmp
IE = A('instantiation_error')


class OK:
    """an argument of the right type (opaque)"""
    def __repr__(self):
        return 'OK'


V = Var(0)
# ---------------------------------------------------------------- hostile argument terms
H = [
    ('_', V), ('1', 1), ('0', 0), ('-1', -1), ('(-5)', -5), ('256', 256), ('70000', 70000), ('1152921504606846975', (1 << 60) - 1), ('(-1152921504606846976)', -(1 << 60)),
    ('2.5', 2.5), ('foo', A('foo')), ("'Foo bar'", A('Foo bar')), ("''", A('')), ('[]', NIL), ('{}', A('{}')), ("'\\xe9\\'", A('\xe9')), ('x', A('x')), ('abcdefghij_klmnopqrst', A('abcdefghij_klmnopqrst')),
    ('f(x)', C('f', (A('x'),))), ('f(_)', C('f', (V,))), ('foo/1', C('/', (A('foo'), 1))), ('foo/bar', C('/', (A('foo'), A('bar')))), ('foo/(-1)', C('/', (A('foo'), -1))), ('_/1', C('/', (V, 1))), ('3/1', C('/', (3, 1))), ('foo/300', C('/', (A('foo'), 300))), ('foo/_', C('/', (A('foo'), V))),
    ('(a:-1)', C(':-', (A('a'), 1))), ('(a,3)', C(',', (A('a'), 3))), ('a-b', C('-', (A('a'), A('b')))),
    ('[a]', mklist([A('a')])), ('[a,b]', mklist([A('a'), A('b')])), ('"ab"', mklist([97, 98])), ('[1,2,3]', mklist([1, 2, 3])), ("['1','2']", mklist([A('1'), A('2')])), ('[_]', mklist([V])), ('[a|_]', mklist([A('a')], V)), ('[a|b]', mklist([A('a')], A('b'))), ('[1|x]', mklist([1], A('x'))),
    ('[a,_]', mklist([A('a'), V])), ('[f(x)]', mklist([C('f', (A('x'),))])), ('[-1]', mklist([-1])), ('[300]', mklist([300])), ('[2.5]', mklist([2.5])), ('[1,f]', mklist([1, A('f')])), ('[ab]', mklist([A('ab')])), ('[a-1,b-2]', mklist([C('-', (A('a'), 1)), C('-', (A('b'), 2))])), ('[a-1,c]', mklist([C('-', (A('a'), 1)), A('c')])),
    ("'$stream'(9999)", C('$stream', (9999,))), ("'$stream'(x)", C('$stream', (A('x'),))), ('(1.0)', 1.0), ('(Q1__=Q2__)', C('=', (Var(1), Var(2)))), ('true', A('true')), ('[[1,2]]', mklist([mklist([1, 2])])),
]


def isvar(t):
    return type(t) is Var


def listinfo(t):
    """(kind, elements): kind 'list' | 'partial' | 'no'"""
    els = []
    while type(t) is Cmp and t.name == '.' and len(t.args) == 2:
        els.append(t.args[0])
        t = t.args[1]
    return ('list' if t is NIL else 'partial' if isvar(t) else 'no'), els


def char1(t):
    return type(t) is Atom and len(t.name) == 1


def is_call(t):
    if type(t) is Atom:
        return True
    return type(t) is Cmp


def body_ok(t):
    """convertible to a goal"""
    if isvar(t):
        return True
    if type(t) is Cmp and t.name in (',', ';', '->') and len(t.args) == 2:
        return all(body_ok(x) for x in t.args)
    return is_call(t)


def pind(t):
    return type(t) is Cmp and t.name == '/' and len(t.args) == 2


STREAM = lambda t: type(t) is Cmp and t.name == '$stream' and len(t.args) == 1 and type(t.args[0]) is int
TYPE = {
    'a variable': isvar, 'an atom': lambda t: type(t) is Atom, 'an integer': lambda t: type(t) is int, 'a number': lambda t: type(t) in (int, float), 'an number': lambda t: type(t) in (int, float),
    'a callable term': is_call, 'an atomic term': lambda t: type(t) in (Atom, int, float), 'a compound term': lambda t: type(t) is Cmp, 'a character': char1, 'a one-char atom': char1,
    'an in-character': lambda t: char1(t) or t is A('end_of_file'), 'a predicate indicator': pind, 'a stream-term': STREAM, 'a stream': STREAM, 'a stream-term or alias': lambda t: STREAM(t) or type(t) is Atom,
    'a byte': lambda t: type(t) is int and 0 <= t <= 255, 'an in-byte': lambda t: type(t) is int and -1 <= t <= 255, 'a partial list': lambda t: listinfo(t)[0] == 'partial' and not isvar(t) or isvar(t), 'a list': lambda t: listinfo(t)[0] == 'list',
    'a boolean': lambda t: t in (A('true'), A('false')) if type(t) is Atom else False, 'an FD variable': lambda t: False, 'a pair': lambda t: type(t) is Cmp and t.name == '-' and len(t.args) == 2,
    'an character code': lambda t: type(t) is int, 'a stream-position term': lambda t: type(t) is Cmp and t.name == '$stream_position',
}
TYPES = sorted(TYPE, key=lambda x: -len(x))


def kinds(s):
    """'a variable nor an atom' -> predicates or None"""
    ps = []
    for w in re.split(r',? nor |,? or (?=an? )', s.strip()):
        w = w.strip()
        if w == 'a stream-term' or w not in TYPE:
            if w not in TYPE:
                return None
        ps.append(TYPE[w])
    return ps


def cond(c, env):
    """culprits for which the documented condition c holds: [] when it does not, None when c is not understood"""
    c = re.sub(r'\s+', ' ', c).strip()
    # conjunctions
    m = re.match(r'^(\w+) and (\w+) are (?:both )?variables$', c)
    if m and all(x in env for x in m.groups()):
        return [None] if all(isvar(env[x]) for x in m.groups()) else []
    m = re.match(r'^(\w+) is a variable(?: and|,) (.*)$', c)
    if m and m.group(1) in env:
        if not isvar(env[m.group(1)]):
            return []
        return cond(m.group(2), env)
    m = re.match(r'^(\w+) is (.*)$', c)
    if m and m.group(1) in env:
        x, w = env[m.group(1)], m.group(2)
        if w == 'a variable':
            return [x] if isvar(x) else []
        if w == 'not a variable':
            return [x] if not isvar(x) else []
        if type(x) is OK:
            if w == 'not associated with an open stream' or not re.search(r'neither|partial|integer but|integer (\$|not)|list', w):
                return None
            return []
        if w in ('neither a partial list nor a list', 'neither a list nor a partial list'):
            return [x] if listinfo(x)[0] == 'no' else []
        if w == 'neither a partial list nor a list nor an atom':
            return [x] if listinfo(x)[0] == 'no' and type(x) is not Atom else []
        if w == 'a partial list':
            return [x] if listinfo(x)[0] == 'partial' else []
        if re.match(r'a partial list or a list with an element( \w+)? which is a variable$', w):
            k, els = listinfo(x)
            return [x] if k == 'partial' or k == 'list' and any(isvar(e) for e in els) else []
        if w == 'not a variable but is a partial list':
            return [x] if not isvar(x) and listinfo(x)[0] == 'partial' else []
        if w == 'an integer $<$ 0':
            return [x] if type(x) is int and x < 0 else []
        if w == 'an integer $>$ max_arity flag':
            return [x] if type(x) is int and x > 255 else []
        if w in ('an integer but not a character code', 'an integer but not an in-character code'):
            return [x] if type(x) is int and not (0 if 'in-' not in w else -1) <= x <= 255 else []
        if w == 'the empty list':
            return [x] if x is NIL else []
        m = re.match(r'neither (.*)$', w)
        if m:
            ps = kinds(m.group(1))
            if ps is None:
                return None
            return [x] if not any(p(x) for p in ps) else []
        return None
    m = re.match(r'^(?:for keysort/2: )?[aA]n element (\w+)? ?of (?:the )?(?:list )?(\w+)(?: list)? is (.*)$', c)
    if m and m.group(2) in env:
        x, w = env[m.group(2)], m.group(3)
        if type(x) is OK:
            return None
        k, els = listinfo(x)
        if w == 'an integer but not a character code':
            return [e for e in els if type(e) is int and not 0 <= e <= 255]
        m = re.match(r'neither (.*)$', w)
        if m:
            ps = kinds(m.group(1))
            if ps is None:
                return None
            return [e for e in els if not any(p(e) for p in ps)]
        return None
    return None


def parse_err(s, env):
    """'type_error(atom, X)' -> function(culprit) -> term, or the functor when opaque"""
    s = re.sub(r'\\textit\{[^}]*\}', 'Any', s).strip()
    m = re.match(r"^(\w+)\((.*)\)$", s)
    if not m:
        return s, None
    return m.group(1), [x.strip() for x in m.group(2).split(',')]


def shape_ok(f, name, args, env):
    """is the observed formal f an instance of the documented name(args)? names outside env match anything"""
    if args is None:
        return f is A(name)
    if type(f) is not Cmp or f.name != name:
        return False
    if name == 'representation_error':
        return same(f.args[0], A(args[0]))
    if len(f.args) != len(args):
        return False
    for a, x in zip(args, f.args):
        if re.match(r"^[a-z]\w*$", a) and not same(A(a), x):
            return False
    return True


def required(spec, env):
    """[(name, args, culprits)] whose condition definitely holds, and the list of those that may hold"""
    req, may = [], []
    for c, e in spec:
        r = cond(c, env)
        name, args = parse_err(e, env)
        if r is None:
            may.append((name, args))
        elif r:
            req.append((name, args, r, c))
    return req, may


def match_req(f, rq, env):
    name, args, cul, _ = rq
    if not shape_ok(f, name, args, env):
        return False
    if args is None or name == 'representation_error':
        return True
    last = args[-1]
    if last in env or re.match(r'^[A-Z]\w*$', last):
        got = f.args[-1]
        cand = [env[last]] if last in env else [x for x in cul if x is not None]
        if any(type(x) is OK for x in cand):
            return True
        return any(same(x, got) for x in cand) or (type(got) is Cmp and got.name == '/' and 'predicate' in str(args))
    return True


# ---------------------------------------------------------------- base calls (valid or harmless)
BASE = r"""
compare(O,a,b)|functor(f(a),N,A1)|functor(T,foo,2)|arg(1,f(a),X)|f(a)=..L|T=..[foo,a]|term_variables(f(X,Y),L)|term_variables(f(X,Y),L,T)|term_hash(f(a),H)|term_hash(f(a),3,100,H)
setarg(1,f(a),b)|setarg(1,f(a),b,true)|nb_setarg(1,f(a),b)|term_ref(f(a),R)|current_evaluable(abs/1)|evaluable_property(sin(_),P)|succ(1,X)|succ(X,2)|bind_variables(f(X),[from(0),next(N)])|numbervars(f(X),0,E)|name_query_vars([],R)
asserta(dq(1))|assertz(dq(2))|assertz((dq(3):-true))|retract(dq(77))|retractall(dq(77))|clause(dp(X),B)|abolish(nodq/3)|current_predicate(dp/1)|predicate_property(dp(_),P)
findall(X,dp(X),L)|findall(X,dp(X),L,T)|bagof(X,dp(X),L)|setof(X,dp(X),L)
current_input(S)|current_output(S)|set_input(s_in)|set_output(s_out)|open(s1,read,S)|open(s1,read,S,[type(text)])|open(nf1,write,S,[type(binary),eof_action(error)])|close(s_in)|close(s_in,[force(true)])|flush_output(s_out)|current_stream(S)|stream_property(S,alias(s_in))|at_end_of_stream(s_in)|stream_position(s_in,P)
seek(s_in,bof,0,N)|character_count(s_in,N)|line_count(s_in,N)|line_position(s_in,N)|stream_line_column(s_in,L,C)|set_stream_line_column(s_in,3,4)|set_stream_alias(s_in,zz)|add_stream_alias(s_in,zy)|current_alias(S,s_in)|add_stream_mirror(s_out,s_out2)|remove_stream_mirror(s_out,s_out2)|current_mirror(S,M)|set_stream_type(s_in,text)|set_stream_eof_action(s_in,reset)|set_stream_buffering(s_out,line)
open_input_atom_stream(abc,S)|open_input_chars_stream([a,b],S)|open_input_codes_stream("ab",S)|open_output_atom_stream(S)|open_output_chars_stream(S)|open_output_codes_stream(S)|close_input_atom_stream(t_in)|close_output_atom_stream(t_out,A1)|close_output_chars_stream(t_out,A1)|close_output_codes_stream(t_out,A1)
get_char(s_in,X)|get_code(s_in,X)|peek_char(s_in,X)|peek_code(s_in,X)|unget_char(s_in,a)|unget_code(s_in,97)|put_char(s_out,a)|put_code(s_out,97)|nl(s_out)|get_byte(b_in,X)|peek_byte(b_in,X)|unget_byte(b_in,97)|put_byte(b_out,97)|get_char(X)|get_code(X)|peek_char(X)|peek_code(X)|put_char(a)|put_code(97)
read_term(s_in,T,[variables(V1)])|read(s_in,T)|read_atom(s_in,X)|read_integer(s_int,X)|read_number(s_int,X)|read_token(s_in,X)|syntax_error_info(F,L,C,E)|last_read_start_line_column(L,C)
write_term(s_out,foo,[quoted(true)])|write(s_out,foo)|writeq(s_out,foo)|print(s_out,foo)|display(s_out,foo)|write_canonical(s_out,foo)|format(s_out,"~w~n",[foo])|format("~a",[foo])|portray_clause(s_out,(a:-b))|get_print_stream(S)
op(200,xfx,zzop)|current_op(P,T,mod)|char_conversion(a,a)|current_char_conversion(a,X)|read_term_from_atom('foo .',T,[])|read_from_atom('foo .',T)|read_token_from_atom('foo .',T)|read_from_chars([f,' ','.'],T)|read_token_from_chars([f,' ','.'],T)|read_term_from_chars([f,' ','.'],T,[])|read_from_codes("f .",T)|read_token_from_codes("f .",T)|read_term_from_codes("f .",T,[])
write_term_to_atom(X,foo,[])|write_to_atom(X,foo)|writeq_to_atom(X,foo)|write_canonical_to_atom(X,foo)|display_to_atom(X,foo)|print_to_atom(X,foo)|format_to_atom(X,"~w",[foo])|write_term_to_chars(X,foo,[])|write_to_chars(X,foo)|write_term_to_codes(X,foo,[])|write_to_codes(X,foo)|format_to_chars(X,"~w",[foo])|format_to_codes(X,"~w",[foo])
phrase(gr,"a",R)|phrase(gr,"a")|once(dp(_))|call(dp,X)|call_with_args(dp,X)|call_det(dp(1),D)|forall(dp(X),true)|between(1,3,X)|for(X,1,3)|call(dp(X))|countall(dp(X),N)|call_nth(dp(X),N)
atom_length(abc,N)|atom_concat(ab,c,X)|atom_concat(X,Y,abc)|sub_atom(abc,B,L,E,S)|char_code(a,X)|char_code(X,97)|lower_upper(a,X)|lower_upper(X,'A')|atom_chars(abc,L)|atom_chars(X,[a,b])|atom_codes(abc,L)|atom_codes(X,"ab")|number_atom(12,X)|number_atom(X,'12')|number_chars(12,X)|number_chars(X,['1'])|number_codes(12,X)|number_codes(X,"1")|name(foo,X)|name(X,"12")|new_atom(pre,X)|new_atom(X)|current_atom(foo)|atom_property(foo,P)
length([a],N)|sort([b,a],L)|msort([b,a],L)|keysort([b-1],L)|set_prolog_flag(char_conversion,off)|current_prolog_flag(bounded,X)|set_bip_name(foo,1)|current_bip_name(X,Y)|listing(dp/1)|statistics(runtime,X)|user_time(X)|system_time(X)|cpu_time(X)|real_time(X)|set_seed(5)|get_seed(X)|random(X)|random(1,5,X)
absolute_file_name(foo,X)|is_absolute_file_name(foo)|is_relative_file_name(foo)|decompose_file_name(foo,D,P,S)|prolog_file_name(foo,X)|argument_counter(X)|argument_value(0,X)|argument_list(X)|environ('PATH',X)|working_directory(X)|directory_files('.',X)|file_permission(s1,read)|file_exists(s1)|file_property(s1,type(X))|temporary_name('xxXXXXXX',X)|date_time(X)|host_name(X)|os_version(X)|architecture(X)
delete_file(nofile1)|rename_file(nofile1,nofile2)|copy_file(nofile1,nofile2)|make_directory(nodir1/x)|delete_directory(nodir2)|change_directory('.')|prolog_pid(X)|wait(999999,X)|sleep(0)
socket(foo,X)|socket_close(9999)|socket_bind(9999,'AF_INET'(localhost,0))|socket_listen(9999,1)|socket_accept(9999,X,Y)|hostname_address(localhost,X)|get_linedit_prompt(X)|set_linedit_prompt(foo)|add_linedit_completion(foo)|find_linedit_completion(fooo,X)|shell(true,X)|system(true,X)|spawn(true,[],X)|popen(true,read,S)|exec(true,I,O,E)|create_pipe(X,Y)|select([],R,[],W,1)
fd_max_integer(X)|fd_vector_max(X)|fd_domain(FX,0,5)|fd_domain_bool([FX])|fd_domain(FX,[1,2])|fd_min(FX,N)|fd_max(FX,N)|fd_size(FX,N)|fd_dom(FX,N)|fd_has_extra_cstr(FX)|fd_has_vector(FX)|fd_use_vector(FX)|fd_prime(FX)|fd_not_prime(FX)|fd_reified_in(FX,0,3,B)|fd_cardinality([FX#=1],N)|fd_cardinality(0,[FX#=1],1)|fd_at_least_one([FX#=1])|fd_at_most_one([FX#=1])|fd_only_one([FX#=1])|fd_all_different([FX])|fd_element(I,[1,2],FX)|fd_element_var(I,[FX],FX)|fd_atmost(1,[FX],1)|fd_atleast(1,[FX],1)|fd_exactly(1,[FX],1)|fd_relation([[1],[2]],[FX])|fd_relationc([[1,2]],[FX])|fd_labeling([FX],[])|fd_labeling([FX])|fd_labelingff([FX])|fd_minimize(fd_labeling([FX]),FX)|fd_maximize(fd_labeling([FX]),FX)
var(X)|nonvar(a)|atom(a)|number(1)|integer(1)|float(1.0)|atomic(a)|compound(f(x))|callable(a)|is_list([])|list([])|partial_list('.'(a,X))|list_or_partial_list([])|ground(a)|a==b|a@<b|a@>=b|a\==b|copy_term(f(X),Y)|X=a|a\=b|subsumes_term(f(X),f(a))|unify_with_occurs_check(X,a)|term_variables(a,L)|g_assign(zk,1)|g_read(zk,X)|acyclic_term(f(a))
append([a],[b],L)|member(X,[a])|memberchk(a,[a])|reverse([a],L)|delete([a],a,L)|select(X,[a],L)|permutation([a,b],L)|last([a],X)|nth0(0,[a],X)|nth1(1,[a],X)|nth(1,[a],X)|sum_list([1,2],X)|max_list([1,2],X)|min_list([1,2],X)|msort([b,a],L)|sublist([a],[a,b])|prefix([a],[a,b])|suffix([b],[a,b])|subtract([a],[b],L)|flatten([a,[b]],L)|maplist(dp,[1])|keysort([a-1],L)
X is 1+2|1=:=1|1<2|2>=1|1=\=2|1=<1|2>1
"""


def parse_call(s):
    """(name, [argument texts]) of a call text"""
    m = re.match(r"^(.*?)(=\.\.|==|@<|@>=|\\==|\\=|=:=|=\\=|=<|>=|<|>|=| is )(.*)$", s)
    if not re.match(r"^[a-z]\w*\(", s) or (m and s.startswith(('f(a)=..',))):
        return m.group(2).strip(), [m.group(1), m.group(3)], True
    name, rest = s.split('(', 1)
    rest = rest[:-1]
    args, dep, cur, q = [], 0, '', None
    for ch in rest:
        if q:
            cur += ch
            if ch == q:
                q = None
            continue
        if ch in '\'"':
            q = ch
        if ch in '([{':
            dep += 1
        if ch in ')]}':
            dep -= 1
        if ch == ',' and dep == 0:
            args.append(cur)
            cur = ''
        else:
            cur += ch
    args.append(cur)
    return name, args, False


def base_term(t):
    if re.match(r'^[A-Z_]\w*$', t) and t != 'FX':
        return Var(t)
    if re.match(r'^-?\d+$', t):
        return int(t)
    if re.match(r'^[a-z]\w*$', t):
        return A(t)
    return OK()


SPEC = {}


def load_spec():
    here = os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib', 'gpv')
    if os.path.exists(here + '/docerr_exc.json'):
        EXC.update(json.load(open(here + '/docerr_exc.json')))
    d = json.load(open(os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib', 'gpv', 'docerr.json')))
    for o in d:
        for n, a, names in o['preds']:
            if len(names) == a:
                SPEC[n, a] = (names, o['errs'])


CALLS = [parse_call(x) for l in BASE.strip().split('\n') for x in l.split('|') if x]

PRE = r"""
:- dynamic(dp/1). :- dynamic(dq/1).
dp(1). dp(2). dp(3).
gr --> "a".
statp(1).
dg(d(Ops,Fl,Ss,I,O,Wd,Cl,Cq,Gk,Fs,Cc)) :-
  findall(op(P,T,N), current_op(P,T,N), Ops), findall(F-Vl, (current_prolog_flag(F,Vl)), Fl),
  findall(S-Al-Ty-Ea-Bu, ( current_stream(S), S \= '$stream'(0), findall(Z, stream_property(S,alias(Z)), Al), findall(Z, stream_property(S,type(Z)), Ty), findall(Z, stream_property(S,eof_action(Z)), Ea), findall(Z, stream_property(S,buffering(Z)), Bu)), Ss),
  current_input(I), current_output(O), working_directory(Wd), findall(X, clause(dp(X),_), Cl), findall(X, clause(dq(X),_), Cq), g_read(gk, Gk), directory_files('.', Fs0), sort(Fs0, Fs),
  findall(c(X,Y), current_char_conversion(X,Y), Cc0), length(Cc0, Cc).
mkf :- g_read(kst, L), L \== 0, !.
mkf :- findall(S, current_stream(S), L), g_assign(kst, L), g_assign(gk, keep(1)), findall(op(P,T,N), current_op(P,T,N), Lo), g_assign(kop, Lo).
str :- mkf, unstr, open(s1, read, _, [alias(s_in)]), open(s2, read, _, [alias(s_int)]), open(sw, write, _, [alias(s_out)]), open(sw2, write, _, [alias(s_out2)]), open(s1, read, _, [alias(b_in),type(binary)]), open(sw3, write, _, [alias(b_out),type(binary)]),
   open_input_atom_stream('foo bar', T1), add_stream_alias(T1, t_in), open_output_atom_stream(T2), add_stream_alias(T2, t_out).
unstr :- set_input(user_input), set_output(user_output), catch(close_input_atom_stream(t_in),_,true), ( current_stream(S), S \= '$stream'(0), \+ stream_property(S, alias(user_input)), \+ stream_property(S, alias(user_output)), \+ stream_property(S, alias(user_error)), \+ stream_property(S, alias(keep)), \+ std(S), catch(close(S,[force(true)]),_,cls(S)), fail ; true ),
   retractall(dq(_)), set_prolog_flag(char_conversion,off), ( current_op(P,T,N), g_read(kop,L), \+ memberchk(op(P,T,N),L), (memberchk(op(P1,T,N),L) -> true ; P1 = 0), catch(op(P1,T,N),_,true), fail ; true ).
std(S) :- g_read(kst, L), memberchk(S, L).
cls(S) :- catch(close_output_atom_stream(S,_),_,fail), !.
cls(_).
t21(G, R) :- str, dg(D0), catch((call(G) -> R0 = yes ; R0 = no), E, R0 = exc(E)), dg(D1), chk(R0, D0, D1, R), unstr.
chk(exc(E), D0, D1, R) :- !, ( D0 == D1 -> R = exc(E) ; diff(D0, D1, W), R = changed(W, E) ).
chk(R, _, _, R).
diff(D0, D1, W) :- D0 =.. [_|L0], D1 =.. [_|L1], diff(L0, L1, 1, W).
diff([X|_], [Y|_], _, X-Y) :- X \== Y, !.
diff([_|L0], [_|L1], N, W) :- diff(L0, L1, N, W).
"""
NAT = r"""
tc(G0, R, D0) :- dg(D1), chk(G0, D0, D1, R), unstr.
"""


def case(r, name, args, infix, repl, mode, wrap):
    """repl {index: (text, term)}"""
    texts = list(args)
    terms = [base_term(a) for a in args]
    for i, (tx, t) in repl.items():
        texts[i] = tx
        terms[i] = t
    n = len(args)
    call = f'({texts[0]}) {name} ({texts[1]})' if infix else f'{name}({", ".join(texts)})'
    pre = 'fd_domain(FX,0,9), ' if 'FX' in call else ''
    key = (name, n)
    if mode == 'meta' or mode == 'byte':
        goal = f'{pre}t21({call}, Res__)' if not wrap else f'{pre}t21({wrap}({call}), Res__)'
    else:
        goal = f'{pre}str, dg(D0__), catch(({call} -> R0__ = yes ; R0__ = no), E__, R0__ = exc(E__)), tc(R0__, Res__, D0__)'

    def f(o):
        if len(o.sols) != 1:
            return f'the wrapper did not finish: {o!r}'
        res = o.sols[0]
        if type(res) is Cmp and res.name == 'changed':
            changed, exc = res.args
            m = outcome(res, exc)
            if m is None or leak(changed) == 'other':
                if leak(changed) == 'const-stream-leak':
                    me.key = f'const-stream-leak:{name}/{n}'
                m = f'SIG<<{name}/{n} changed {leak(changed)}>> error but something changed: {ts(res, 600)}'
            return m
        return outcome(res, res.args[0] if type(res) is Cmp and res.name == 'exc' else None)

    def outcome(res, exc):
        names, spec = SPEC.get(key, (None, None))
        fm = None
        if exc is not None:
            if type(exc) is not Cmp or exc.name != 'error' or len(exc.args) != 2:
                return f'SIG<<{name}/{n} ball>> ball {ts(exc)} is not error(_,_)'
            fm, ctx = exc.args
            fn = fm.name if type(fm) in (Atom, Cmp) else ''
            if fn not in FORMALS or type(fm) is Cmp and len(fm.args) != FORMALS[fn]:
                return f'SIG<<{name}/{n} formal>> unknown kind of error {ts(exc)}'
            # the error must name the called predicate
            if not same(ctx, C('/', (A(name), n))):
                sg = f'{name}/{n} ctx {ts(ctx)}' if fn not in ('existence_error', 'syntax_error') else f'{name}/{n} ctx of {fn}'
                if sg not in EXC and not (name == 'call' and n == 1 and mode != 'meta'):     # a compiled call/1 names the calling predicate
                    if name == 'call_det' and ctx.name == '/' and ctx.args[0] is A('$call_det'):
                        me.key = 'call_det-context'
                    return f'SIG<<{sg}>> the error does not name {name}/{n}: {ts(exc)}'
        if spec is None:
            return None
        env = dict(zip(names, terms))
        req, may = required(spec, env)
        if fm is None:
            sg = [f'{name}/{n} noerr {q[3]}' for q in req]
            if sg and not any(x in EXC for x in sg):
                return f'SIG<<{sg[0]}>> {ts(res)} although documented: ' + '; '.join(f'{q[0]}({",".join(q[1]) if q[1] else ""})' for q in req)
            return None
        if any(match_req(fm, q, env) for q in req):
            return None
        if any(shape_ok(fm, a, b, env) for a, b in may):
            return None
        sg = f'{name}/{n} undoc {fm.name}' + (f'({ts(fm.args[0])})' if type(fm) is Cmp and fn not in ('syntax_error', 'uninstantiation_error') else '')
        if sg in EXC:
            return None
        return f'SIG<<{sg}>> {ts(fm)} is not a documented error of this call (required {[(q[0], q[1]) for q in req]}, possible {may})'[:700]
    me = Case(goal, 'Res__', f, max=3, key=f'{name}/{n}:{",".join(str(i) + "=" + tx for i, (tx, t) in sorted(repl.items()))}')
    return me


def leak(w):
    """what changed: one more stream at the end of the stream list (a constant-term stream left open) or the component that differs"""
    if type(w) is Cmp and w.name == '-' and len(w.args) == 2:
        a, b = listinfo(w.args[0]), listinfo(w.args[1])
        if a[0] == 'list' and b[0] == 'list' and len(b[1]) == len(a[1]) + 1 and sum(1 for x in b[1] if not any(same(x, y) for y in a[1])) == 1 and 'stream' in ts(b[1][0], 400):
            return 'const-stream-leak'
    return 'other'


FORMALS = {'instantiation_error': 0, 'uninstantiation_error': 1, 'type_error': 2, 'domain_error': 2, 'existence_error': 2, 'permission_error': 3, 'representation_error': 1, 'evaluation_error': 1, 'resource_error': 1, 'syntax_error': 1, 'system_error': 1}
EXC = set()

def work(part, arg):
    mode, i, seed = arg
    load_spec()
    r = random.Random(f'c21/{seed}/{mode}/{i}')
    cases = []
    mine = [c for k, c in enumerate(CALLS) if k % NJ == i]
    for name, args, infix in mine:
        n = len(args)
        cases.append(case(r, name, args, infix, {}, mode, ''))
        sing = [(k, h) for k in range(n) for h in H]
        if mode != 'meta':
            sing = r.sample(sing, min(len(sing), 14))
        for k, h in sing:
            if skip(name, n, {k: h}):
                continue
            cases.append(case(r, name, args, infix, {k: h}, mode, ''))
        if n >= 2:
            for _ in range(PAIRS if mode == 'meta' else 8):
                ks = r.sample(range(n), r.choice([2, 2, n]))
                rp = {k: r.choice(H) for k in ks}
                if skip(name, n, rp):
                    continue
                cases.append(case(r, name, args, infix, rp, mode, r.choice(['', '', 'once', 'call']) if mode == 'meta' else ''))
    cases = [c for c in cases if not dangerous(c.goal)]
    run_batch(part, SAN if SAN and mode == 'meta' else SYS, cases, mode, PRE + NAT, name='err-' + mode, timeout=60, keyf=lambda c: c.key, env={'GLOBALSZ': '200000'}, files={'s1': 'foo(bar). baz. 12 .\n', 's2': '12 13 14'})


def dangerous(g):
    """calls that would not terminate or would wait"""
    return False


def skip(name, n, repl):
    for i, (tx, t) in repl.items():
        k, els = listinfo(t)
        if (name, i) in GOALARG and els:
            return True                 # a list called as a goal consults files
        if name in ('subtract', 'delete', 'flatten', 'sublist', 'suffix', 'prefix', 'select', 'append', 'last', 'nth0', 'nth1', 'nth', 'sum_list', 'max_list', 'min_list', 'maplist', 'memberchk', 'member') and n <= 3 and len(repl) > 1 and any(isvar(u) or listinfo(u)[0] == 'partial' for _, u in repl.values()):
            return True                 # may enumerate for ever
        if name in ('reverse', 'permutation') and (k == 'partial' or isvar(t)) or name == 'reverse':
            return k == 'partial' or i == 1     # would enumerate for ever
        if name in ('sleep', 'wait') and type(t) in (int, float) and t > 1:
            return True
        if name == 'select' and n == 5 and i == 4 and type(t) in (int, float):
            return True
        if name in ('spawn', 'exec', 'system', 'shell', 'popen') and i == 0 and type(t) is not Atom:
            continue
        if name == 'term_ref' and i == 1 and type(t) is int and t not in (0, 1):
            return True                 # any integer is taken for an address offset
        if name == 'length' and i == 1 and type(t) is int and t > 100000 and (0 not in repl or listinfo(repl[0][1])[0] == 'partial'):
            return True                 # a list too big for the global stack
        if name == 'fd_maximize' and i == 1 and isvar(t):
            return True
    return False


GOALARG = {('findall', 1), ('bagof', 1), ('setof', 1), ('forall', 0), ('forall', 1), ('call', 0), ('once', 0), ('call_det', 0), ('call_nth', 0), ('countall', 0), ('fd_minimize', 0), ('fd_maximize', 0), ('maplist', 0), ('call_with_args', 0)}


NJ = 24
PAIRS = 60


def body():
    global SYS, SAN, PAIRS
    ck = Check('C21', rule='every built-in of a table of %d base calls with each argument replaced by each of %d hostile terms, and random pairs and triples of replacements: the outcome must be one the documentation of that predicate allows '
               '(conditions of the manual evaluated on the arguments: when one holds an error for one of those that hold must be raised, with its culprit; otherwise no error except for the conditions the evaluator cannot decide), the error term must name the '
               'predicate, and operators, flags, streams, clauses, global variables, files and directory must be unchanged after an error; meta-called, byte-code and native' % (len(CALLS), len(H)))
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    if ck.thorough:
        PAIRS = 600
    jobs = [(m, i, ck.seed) for m in ('meta', 'byte', 'native') for i in range(NJ)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)

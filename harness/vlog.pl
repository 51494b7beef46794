% Observation layer: vlog/2 serialises a term (walked through the C interface)
% to the event log; vcase/3 logs every solution, the exception, or the end of a goal.

:- foreign(vlog(+integer, +term)).
:- foreign(vlogs(+integer, +string)).
:- foreign(vmark(+integer)).

% vcase(Id, Template, Goal): events sol(T)*, then end | exc(E)
vcase(Id, T, G) :-
	vmark(Id), g_assign('$vid', Id),
	catch(( call(G), vlog(Id, sol(T)), fail ; true ), E, vlog(Id, exc(E))),
	vlogs(Id, end), !.

% vcase(Id, T, G, Max): at most Max solutions, then end(cut)
vcase(Id, T, G, Max) :-
	vmark(Id), g_assign('$vid', Id),
	g_assign('$vcase_n', 0),
	catch(( call(G), vlog(Id, sol(T)), g_inc('$vcase_n', N), N >= Max -> vlogs(Id, cut) ; true ), E, vlog(Id, exc(E))),
	vlogs(Id, end), !.

% vone(Id, T, G): first solution only, its exception, or fail
vone(Id, T, G) :-
	vmark(Id), g_assign('$vid', Id),
	catch(( call(G) -> vlog(Id, sol(T)) ; vlogs(Id, fail) ), E, vlog(Id, exc(E))), !.

% vfile(Name, Bytes): content of a file as the operating system has it, or none
:- foreign(vfile(+string, -term)).

% vstat(Key): stack tops, number of atoms and memory allocated by the C code
:- foreign(vcnt(+integer, +integer, +integer, +integer, +integer)).
vstat(K) :- \+ \+ ( statistics(local_stack, [L,_]), statistics(global_stack, [G,_]), statistics(trail_stack, [T,_]), statistics(cstr_stack, [C,_]), vcnt(K, L, G, T, C) ).

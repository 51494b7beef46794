From aa6588f53e6da4d0a0b766c092533b806fba3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 01/91] fix: lsb/1, msb/1, popcount/1 pass the tagged culprit
 to the domain error

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index fa0101e..5f23c60 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1052,7 +1052,7 @@ Pl_Fct_Fast_LSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Least_Significant_Bit(x));
 }
 
@@ -1061,7 +1061,7 @@ Pl_Fct_Fast_MSB(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT((x == 0) ? -1 : Pl_Most_Significant_Bit(x));
 }
 
@@ -1070,7 +1070,7 @@ Pl_Fct_Fast_Popcount(WamWord x_word)
 {
   PlLong x = UnTag_INT(x_word);
   if (x < 0)
-    Pl_Err_Domain(pl_domain_not_less_than_zero, x);
+    Pl_Err_Domain(pl_domain_not_less_than_zero, x_word);
   return Tag_INT(Pl_Count_Set_Bits(x));
 }
 
-- 
2.43.0


From a34a124381618061cfdbcf8c754a10678fc7915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 02/91] fix: (<<)/2 detects the overflow of a negative left
 operand

---
 src/BipsPl/arith_inl_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 5f23c60..b11172f 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1004,7 +1004,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
   if (y < 0)
     {
       if (y == INT_LOWEST_VALUE)
-	  return Tag_INT(0);
+	return Tag_INT((x >= 0) ? 0 : -1);
       return Pl_Fct_Fast_Shr(x_word, Tag_INT(-y));
     }
   
@@ -1016,7 +1016,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     }
   else
     {
-      if (x > (INT_GREATEST_VALUE >> y))
+      if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
       z = x << y;
     }
-- 
2.43.0


From 511f6963709432059791531219ce323e0c11f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 03/91] fix: succ/2 dereferences its second argument before
 checking it

---
 src/BipsPl/arith_inl_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index b11172f..eb2aa28 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -555,9 +555,9 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
       DEREF(y_word, word, tag_mask);
       if (tag_mask == TAG_INT_MASK)
 	{
-	  y = UnTag_INT(y_word);
+	  y = UnTag_INT(word);
 	  if (y < 0)
-	    Pl_Err_Domain(pl_domain_not_less_than_zero, y_word);
+	    Pl_Err_Domain(pl_domain_not_less_than_zero, word);
 	}
       else if (tag_mask == TAG_REF_MASK)
 	{
@@ -565,7 +565,7 @@ Pl_Succ_2(WamWord x_word, WamWord y_word)
 	    Pl_Err_Evaluation(pl_evaluation_int_overflow); /* only if y is a var (else fail) */
 	}
       else
-	Pl_Err_Type(pl_type_integer, y_word);
+	Pl_Err_Type(pl_type_integer, word);
 
       return Pl_Get_Integer(x + 1, y_word);
     }
-- 
2.43.0


From d8f17f7fb1e015e70172790799c13967000c94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 04/91] fix: gcd/2 of the lowest integer with itself is an
 overflow

---
 src/BipsPl/arith_inl_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index eb2aa28..6780605 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1112,6 +1112,10 @@ Pl_Fct_Fast_GCD(WamWord x_word, WamWord y_word)
       x = y;
       y = r;
     }
+
+  if (TEST_INT_OVERFLOW(x))
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
+
   return Tag_INT(x);
 }
 
-- 
2.43.0


From c1291d7b3b48ba6b251e0b64441a4db22be8f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 05/91] fix: a cut in a clause of a dynamic or multifile
 predicate compiled to native code cuts the other clauses

---
 src/Pl2Wam/indexing.pl   |   3 +-
 src/Pl2Wam/indexing.wam  |  80 +++++++-------
 src/Pl2Wam/read_file.pl  |   2 +
 src/Pl2Wam/read_file.wam | 228 ++++++++++++++++++++-------------------
 4 files changed, 167 insertions(+), 146 deletions(-)

diff --git a/src/Pl2Wam/indexing.pl b/src/Pl2Wam/indexing.pl
index d2b3361..5092c7d 100644
--- a/src/Pl2Wam/indexing.pl
+++ b/src/Pl2Wam/indexing.pl
@@ -134,7 +134,8 @@
 indexing(LCC, WamCode1) :-
 	indexing1(LCC, f, _, [_|WamCode]),       % ignore the unused label(0)
 	cur_pred(Pred, N),
-	(   test_pred_flag(need_cut_level, Pred, N) ->
+	(   test_pred_flag(need_cut_level, Pred, N),
+	    \+ test_pred_flag(dyn_wrap, Pred, N) ->	% X(N) already initialized by the byte-code emulator
 	    N1 is N + 1,
 	    WamCode1 = [pragma_arity(N1), get_current_choice(x(N))|WamCode]
 	;   WamCode1 = WamCode
diff --git a/src/Pl2Wam/indexing.wam b/src/Pl2Wam/indexing.wam
index 1a95efb..4714268 100644
--- a/src/Pl2Wam/indexing.wam
+++ b/src/Pl2Wam/indexing.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: indexing.pl
-% hash: 20ef30a8be46375e38578b58b0728e2ae84c3183  indexing.pl
+% hash: f50280ad2a5d418aef645bece804f700b4838f14  indexing.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/indexing.pl').
@@ -34,29 +34,35 @@ predicate('$indexing/2_$aux1'/4,134,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
-    allocate(4),
-    get_variable(y(0),1),
-    get_variable(y(1),2),
-    get_variable(y(2),3),
-    get_variable(y(3),4),
-    put_value(x(0),1),
+    allocate(5),
+    get_variable(y(0),0),
+    get_variable(y(1),1),
+    get_variable(y(2),2),
+    get_variable(y(3),3),
+    get_variable(y(4),4),
     put_atom(need_cut_level,0),
-    put_value(y(0),2),
+    put_value(y(0),1),
+    put_value(y(1),2),
     call(test_pred_flag/3),
-    cut(y(3)),
-    math_fast_load_value(y(0),0),
+    put_structure(test_pred_flag/3,0),
+    unify_atom(dyn_wrap),
+    unify_local_value(y(0)),
+    unify_local_value(y(1)),
+    call((\+)/1),
+    cut(y(4)),
+    math_fast_load_value(y(1),0),
     call_c('Pl_Fct_Fast_Inc',[fast_call,x(1)],[x(0)]),
-    put_value(y(1),0),
+    put_value(y(2),0),
     get_list(0),
     unify_variable(x(2)),
     unify_list,
     unify_variable(x(0)),
-    unify_local_value(y(2)),
+    unify_local_value(y(3)),
     get_structure(pragma_arity/1,2),
     unify_local_value(x(1)),
     get_structure(get_current_choice/1,0),
     unify_structure(x/1),
-    unify_local_value(y(0)),
+    unify_local_value(y(1)),
     deallocate,
     proceed,
 
@@ -66,7 +72,7 @@ label(1),
     proceed]).
 
 
-predicate(indexing1/4,147,static,private,monofile,global,[
+predicate(indexing1/4,148,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -119,7 +125,7 @@ label(1),
     proceed]).
 
 
-predicate(look_for_var/5,161,static,private,monofile,global,[
+predicate(look_for_var/5,162,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     switch_on_term(2,3,fail,1,fail),
@@ -178,7 +184,7 @@ label(7),
     execute('$look_for_var/5_$aux2'/2)]).
 
 
-predicate('$look_for_var/5_$aux2'/2,170,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux2'/2,171,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(6),
@@ -211,7 +217,7 @@ label(6),
     proceed]).
 
 
-predicate('$look_for_var/5_$aux1'/2,163,static,private,monofile,local,[
+predicate('$look_for_var/5_$aux1'/2,164,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -226,7 +232,7 @@ label(1),
     proceed]).
 
 
-predicate(mk_indexing/6,182,static,private,monofile,global,[
+predicate(mk_indexing/6,183,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(2,fail,1,fail,fail),
@@ -419,7 +425,7 @@ label(11),
     execute(gen_insts/3)]).
 
 
-predicate('$mk_indexing/6_$aux6'/8,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux6'/8,214,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -447,7 +453,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux5'/3,213,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux5'/3,214,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -464,7 +470,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux4'/3,207,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux4'/3,208,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -481,7 +487,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux3'/3,199,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux3'/3,200,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -498,7 +504,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux2'/3,191,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux2'/3,192,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -515,7 +521,7 @@ label(1),
     proceed]).
 
 
-predicate('$mk_indexing/6_$aux1'/3,182,static,private,monofile,local,[
+predicate('$mk_indexing/6_$aux1'/3,183,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -532,7 +538,7 @@ label(1),
     proceed]).
 
 
-predicate(split/5,234,static,private,monofile,global,[
+predicate(split/5,235,static,private,monofile,global,[
     allocate(6),
     get_variable(y(0),1),
     get_variable(y(1),2),
@@ -553,7 +559,7 @@ predicate(split/5,234,static,private,monofile,global,[
     execute(group_by_keys/2)]).
 
 
-predicate(split1/5,241,static,private,monofile,global,[
+predicate(split1/5,242,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -597,7 +603,7 @@ label(4),
     execute(split1/5)]).
 
 
-predicate(split2/10,248,static,private,monofile,global,[
+predicate(split2/10,249,static,private,monofile,global,[
     switch_on_term(2,7,fail,fail,1),
 
 label(1),
@@ -672,7 +678,7 @@ label(9),
     proceed]).
 
 
-predicate(group_by_keys/2,268,static,private,monofile,global,[
+predicate(group_by_keys/2,269,static,private,monofile,global,[
     allocate(2),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -686,7 +692,7 @@ predicate(group_by_keys/2,268,static,private,monofile,global,[
     execute(sort/1)]).
 
 
-predicate(group_by_keys1/2,278,static,private,monofile,global,[
+predicate(group_by_keys1/2,279,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -726,7 +732,7 @@ label(4),
     execute(group_by_keys1/2)]).
 
 
-predicate(group_by_keys2/4,285,static,private,monofile,global,[
+predicate(group_by_keys2/4,286,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -749,7 +755,7 @@ label(1),
     proceed]).
 
 
-predicate(gen_switch/5,294,static,private,monofile,global,[
+predicate(gen_switch/5,295,static,private,monofile,global,[
     pragma_arity(6),
     get_current_choice(x(5)),
     try_me_else(5),
@@ -808,7 +814,7 @@ label(5),
     proceed]).
 
 
-predicate(create_switch_list/4,317,static,private,monofile,global,[
+predicate(create_switch_list/4,318,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -848,7 +854,7 @@ label(4),
     execute(create_switch_list/4)]).
 
 
-predicate(gen_list/4,327,static,private,monofile,global,[
+predicate(gen_list/4,328,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     switch_on_term(2,3,fail,1,fail),
@@ -898,7 +904,7 @@ label(7),
     execute(gen_list1/3)]).
 
 
-predicate(gen_list1/3,337,static,private,monofile,global,[
+predicate(gen_list1/3,338,static,private,monofile,global,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -934,7 +940,7 @@ label(5),
     execute(gen_list1/3)]).
 
 
-predicate(gen_insts/3,346,static,private,monofile,global,[
+predicate(gen_insts/3,347,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -999,7 +1005,7 @@ label(5),
     proceed]).
 
 
-predicate(gen_insts1/3,355,static,private,monofile,global,[
+predicate(gen_insts1/3,356,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,fail,fail,1,fail),
@@ -1070,7 +1076,7 @@ label(5),
     proceed]).
 
 
-predicate(allocate_labels/3,365,static,private,monofile,global,[
+predicate(allocate_labels/3,366,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(7),
diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index d7bcc84..ea57446 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -407,6 +407,7 @@ create_exe_clauses_for_dyn_pred([SrcCl|LSrcCl], Pred, N) :-
 
 add_wrapper_to_dyn_clause(Pred, N, Where + Cl, AuxName) :-
 	init_aux_pred_name(Pred, N, AuxName, N),
+	set_pred_flag(dyn_wrap, AuxName, N),            % a cut in this clause is a cut of Pred/N
 	(   Cl = (Head :- Body) ->
 	    head_wrapper(Head, AuxName, Head1),
 	    Cl1 = (Head1 :- Body)
@@ -1230,6 +1231,7 @@ flag_bit(need_cut_level, 6).
 flag_bit(meta, 7).
 flag_bit(multi, 8).
 flag_bit(embed, 9).
+flag_bit(dyn_wrap, 10).
 
 
 
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index 783a493..ea8947c 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: 2ec7b4fbceb099e4cc718d8f4a0593a0904639e8  read_file.pl
+% hash: c294b76674ac96cbf39452d97f571e115e7358e1  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -925,6 +925,10 @@ predicate(add_wrapper_to_dyn_clause/4,408,static,private,monofile,global,[
     put_value(y(3),2),
     put_value(y(0),3),
     call(init_aux_pred_name/4),
+    put_atom(dyn_wrap,0),
+    put_value(y(3),1),
+    put_value(y(0),2),
+    call(set_pred_flag/3),
     put_value(y(2),0),
     put_value(y(3),1),
     put_variable(y(4),2),
@@ -966,7 +970,7 @@ label(1),
     execute(head_wrapper/3)]).
 
 
-predicate(head_wrapper/3,418,static,private,monofile,global,[
+predicate(head_wrapper/3,419,static,private,monofile,global,[
     put_list(4),
     unify_void(1),
     unify_variable(x(3)),
@@ -978,7 +982,7 @@ predicate(head_wrapper/3,418,static,private,monofile,global,[
     proceed]).
 
 
-predicate(create_exe_clauses_for_pub_pred/1,424,static,private,monofile,global,[
+predicate(create_exe_clauses_for_pub_pred/1,425,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1013,7 +1017,7 @@ label(4),
     execute(create_exe_clauses_for_pub_pred/1)]).
 
 
-predicate(get_file_name/2,434,static,private,monofile,global,[
+predicate(get_file_name/2,435,static,private,monofile,global,[
     get_structure((+)/2,0),
     unify_variable(x(0)),
     unify_void(1),
@@ -1026,7 +1030,7 @@ predicate(get_file_name/2,434,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_next_clause/3,439,static,private,monofile,global,[
+predicate(get_next_clause/3,440,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1123,7 +1127,7 @@ label(2),
     proceed]).
 
 
-predicate('$get_next_clause/3_$aux1'/8,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux1'/8,451,static,private,monofile,local,[
     pragma_arity(9),
     get_current_choice(x(8)),
     try_me_else(1),
@@ -1189,7 +1193,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause/3_$aux2'/3,450,static,private,monofile,local,[
+predicate('$get_next_clause/3_$aux2'/3,451,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1206,7 +1210,7 @@ label(1),
     proceed]).
 
 
-predicate(get_next_clause1/7,470,static,private,monofile,global,[
+predicate(get_next_clause1/7,471,static,private,monofile,global,[
     pragma_arity(8),
     get_current_choice(x(7)),
     try_me_else(1),
@@ -1227,7 +1231,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate('$get_next_clause1/7_$aux1'/6,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux1'/6,471,static,private,monofile,local,[
     pragma_arity(7),
     get_current_choice(x(6)),
     switch_on_term(1,2,fail,4,fail),
@@ -1260,7 +1264,7 @@ label(4),
     execute('$get_next_clause1/7_$aux2'/7)]).
 
 
-predicate('$get_next_clause1/7_$aux2'/7,470,static,private,monofile,local,[
+predicate('$get_next_clause1/7_$aux2'/7,471,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),1),
@@ -1283,7 +1287,7 @@ label(1),
     execute(get_next_clause2/6)]).
 
 
-predicate(get_next_clause2/6,490,static,private,monofile,global,[
+predicate(get_next_clause2/6,491,static,private,monofile,global,[
     pragma_arity(7),
     get_current_choice(x(6)),
     try_me_else(1),
@@ -1391,7 +1395,7 @@ label(4),
     execute(get_next_clause/3)]).
 
 
-predicate('$get_next_clause2/6_$aux4'/2,517,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux4'/2,518,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1407,7 +1411,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux3'/2,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux3'/2,508,static,private,monofile,local,[
     try_me_else(1),
     execute(handle_directive/2),
 
@@ -1420,7 +1424,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$get_next_clause2/6_$aux2'/1,507,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux2'/1,508,static,private,monofile,local,[
     try_me_else(1),
     put_atom(foreign_only,0),
     put_atom(f,1),
@@ -1435,7 +1439,7 @@ label(1),
     proceed]).
 
 
-predicate('$get_next_clause2/6_$aux1'/4,490,static,private,monofile,local,[
+predicate('$get_next_clause2/6_$aux1'/4,491,static,private,monofile,local,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -1459,7 +1463,7 @@ label(1),
     execute(get_next_clause/3)]).
 
 
-predicate(after_syn_error/0,538,static,private,monofile,global,[
+predicate(after_syn_error/0,539,static,private,monofile,global,[
     allocate(3),
     put_atom(syn_error_nb,1),
     put_variable(x(0),2),
@@ -1493,7 +1497,7 @@ predicate(after_syn_error/0,538,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(expand_error/3,550,static,private,monofile,global,[
+predicate(expand_error/3,551,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1532,7 +1536,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(display_singletons/1,562,static,private,monofile,global,[
+predicate(display_singletons/1,563,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1552,7 +1556,7 @@ label(1),
     proceed]).
 
 
-predicate('$display_singletons/1_$aux1'/1,562,static,private,monofile,local,[
+predicate('$display_singletons/1_$aux1'/1,563,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1569,7 +1573,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(get_singletons/2,575,static,private,monofile,global,[
+predicate(get_singletons/2,576,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1599,7 +1603,7 @@ label(4),
     execute(get_singletons/2)]).
 
 
-predicate('$get_singletons/2_$aux1'/3,577,static,private,monofile,local,[
+predicate('$get_singletons/2_$aux1'/3,578,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1626,7 +1630,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_term/1,599,static,private,monofile,global,[
+predicate(pp_handle_term/1,600,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1658,7 +1662,7 @@ label(1),
     proceed]).
 
 
-predicate(pp_handle_directive/1,610,static,private,monofile,global,[
+predicate(pp_handle_directive/1,611,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,1,fail,fail,2),
@@ -1704,7 +1708,7 @@ label(10),
     execute('$pp_handle_directive/1_$aux4'/0)]).
 
 
-predicate('$pp_handle_directive/1_$aux4'/0,639,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux4'/0,640,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1725,7 +1729,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux3'/1,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux3'/1,628,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1761,7 +1765,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux5'/2,627,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux5'/2,628,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -1792,7 +1796,7 @@ label(7),
     proceed]).
 
 
-predicate('$pp_handle_directive/1_$aux2'/1,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux2'/1,618,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1816,7 +1820,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$pp_handle_directive/1_$aux6'/3,617,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux6'/3,618,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1840,7 +1844,7 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate('$pp_handle_directive/1_$aux1'/2,610,static,private,monofile,local,[
+predicate('$pp_handle_directive/1_$aux1'/2,611,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1872,14 +1876,14 @@ label(1),
     execute(pp_exec_if_goal/3)]).
 
 
-predicate(pp_exec_if_goal/3,648,static,private,monofile,global,[
+predicate(pp_exec_if_goal/3,649,static,private,monofile,global,[
     get_variable(x(3),2),
     get_variable(x(2),1),
     put_value(x(3),1),
     execute('$pp_exec_if_goal/3_$aux1'/3)]).
 
 
-predicate('$pp_exec_if_goal/3_$aux1'/3,648,static,private,monofile,local,[
+predicate('$pp_exec_if_goal/3_$aux1'/3,649,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -1926,14 +1930,14 @@ label(1),
     proceed]).
 
 
-predicate(pp_start/0,658,static,private,monofile,global,[
+predicate(pp_start/0,659,static,private,monofile,global,[
     put_atom(pp_stack,0),
     put_nil(1),
     call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
     proceed]).
 
 
-predicate(pp_stop/0,664,static,private,monofile,global,[
+predicate(pp_stop/0,665,static,private,monofile,global,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -1950,7 +1954,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate(handle_directive/2,678,static,private,monofile,global,[
+predicate(handle_directive/2,679,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -1977,7 +1981,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(foreign_get_options/1,855,static,private,monofile,global,[
+predicate(foreign_get_options/1,856,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(1,2,fail,4,fail),
@@ -2005,7 +2009,7 @@ label(4),
     execute(foreign_get_options/1)]).
 
 
-predicate(foreign_get_options1/1,862,static,private,monofile,global,[
+predicate(foreign_get_options1/1,863,static,private,monofile,global,[
     switch_on_term(3,fail,fail,fail,1),
 
 label(1),
@@ -2103,7 +2107,7 @@ label(14),
     proceed]).
 
 
-predicate('$foreign_get_options1/1_$aux1'/1,866,static,private,monofile,local,[
+predicate('$foreign_get_options1/1_$aux1'/1,867,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2131,7 +2135,7 @@ label(7),
     proceed]).
 
 
-predicate(foreign_check_types/4,896,static,private,monofile,global,[
+predicate(foreign_check_types/4,897,static,private,monofile,global,[
     pragma_arity(5),
     get_current_choice(x(4)),
     try_me_else(1),
@@ -2173,7 +2177,7 @@ label(1),
     execute(foreign_check_types/4)]).
 
 
-predicate('$foreign_check_types/4_$aux1'/3,899,static,private,monofile,local,[
+predicate('$foreign_check_types/4_$aux1'/3,900,static,private,monofile,local,[
     switch_on_term(2,9,fail,fail,1),
 
 label(1),
@@ -2216,7 +2220,7 @@ label(9),
     proceed]).
 
 
-predicate(foreign_check_arg/1,917,static,private,monofile,global,[
+predicate(foreign_check_arg/1,918,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2335,7 +2339,7 @@ label(33),
     proceed]).
 
 
-predicate(embed_clause/3,937,static,private,monofile,global,[
+predicate(embed_clause/3,938,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2368,7 +2372,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_clause/3_$aux2'/2,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux2'/2,938,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2400,7 +2404,7 @@ label(1),
     execute(retractall/1)]).
 
 
-predicate('$embed_clause/3_$aux1'/3,937,static,private,monofile,local,[
+predicate('$embed_clause/3_$aux1'/3,938,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2430,7 +2434,7 @@ label(7),
     proceed]).
 
 
-predicate(handle_init_directive/3,958,static,private,monofile,global,[
+predicate(handle_init_directive/3,959,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2454,7 +2458,7 @@ label(1),
     proceed]).
 
 
-predicate(embed_directive/2,966,static,private,monofile,global,[
+predicate(embed_directive/2,967,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2481,7 +2485,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux2'/0,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux2'/0,967,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -2505,7 +2509,7 @@ label(1),
     proceed]).
 
 
-predicate('$embed_directive/2_$aux1'/2,966,static,private,monofile,local,[
+predicate('$embed_directive/2_$aux1'/2,967,static,private,monofile,local,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2534,7 +2538,7 @@ label(7),
     proceed]).
 
 
-predicate(exec_directive/1,984,static,private,monofile,global,[
+predicate(exec_directive/1,985,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2565,7 +2569,7 @@ label(1),
     execute(warn/2)]).
 
 
-predicate(exec_directive_exception/2,992,static,private,monofile,global,[
+predicate(exec_directive_exception/2,993,static,private,monofile,global,[
     get_variable(x(2),1),
     put_list(1),
     unify_local_value(x(0)),
@@ -2576,7 +2580,7 @@ predicate(exec_directive_exception/2,992,static,private,monofile,global,[
     execute(warn/2)]).
 
 
-predicate(record_initialization/3,998,static,private,monofile,global,[
+predicate(record_initialization/3,999,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -2605,7 +2609,7 @@ label(5),
     execute(assertz/1)]).
 
 
-predicate(add_empty_dyn/2,1007,static,private,monofile,global,[
+predicate(add_empty_dyn/2,1008,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2635,7 +2639,7 @@ label(4),
     execute(add_empty_dyn/2)]).
 
 
-predicate('$add_empty_dyn/2_$aux1'/3,1009,static,private,monofile,local,[
+predicate('$add_empty_dyn/2_$aux1'/3,1010,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2662,7 +2666,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_ensure_linked/1,1019,static,private,monofile,global,[
+predicate(add_ensure_linked/1,1020,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2689,7 +2693,7 @@ label(4),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$add_ensure_linked/1_$aux1'/2,1021,static,private,monofile,local,[
+predicate('$add_ensure_linked/1_$aux1'/2,1022,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2714,7 +2718,7 @@ label(1),
     execute(assertz/1)]).
 
 
-predicate(add_module_export_info/2,1032,static,private,monofile,global,[
+predicate(add_module_export_info/2,1033,static,private,monofile,global,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -2744,7 +2748,7 @@ label(4),
     execute(add_module_export_info/2)]).
 
 
-predicate('$add_module_export_info/2_$aux1'/3,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux1'/3,1035,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2787,7 +2791,7 @@ label(1),
     execute('$add_module_export_info/2_$aux2'/2)]).
 
 
-predicate('$add_module_export_info/2_$aux2'/2,1034,static,private,monofile,local,[
+predicate('$add_module_export_info/2_$aux2'/2,1035,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2810,7 +2814,7 @@ label(1),
     proceed]).
 
 
-predicate(check_pi_specif/3,1050,static,private,monofile,global,[
+predicate(check_pi_specif/3,1051,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -2836,7 +2840,7 @@ label(2),
     execute(check_pi_specif1/3)]).
 
 
-predicate(check_pi_specif1/3,1064,static,private,monofile,global,[
+predicate(check_pi_specif1/3,1065,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(10),
@@ -2917,7 +2921,7 @@ label(10),
     execute(error/2)]).
 
 
-predicate(check_callable/2,1089,static,private,monofile,global,[
+predicate(check_callable/2,1090,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2948,7 +2952,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_module_name/2,1103,static,private,monofile,global,[
+predicate(check_module_name/2,1104,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -2972,7 +2976,7 @@ label(2),
     execute(error/2)]).
 
 
-predicate(check_head_is_module_free/1,1124,static,private,monofile,global,[
+predicate(check_head_is_module_free/1,1125,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -2994,7 +2998,7 @@ label(1),
     proceed]).
 
 
-predicate(check_module_clash/2,1134,static,private,monofile,global,[
+predicate(check_module_clash/2,1135,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3034,7 +3038,7 @@ label(1),
     proceed]).
 
 
-predicate(get_owner_module/3,1146,static,private,monofile,global,[
+predicate(get_owner_module/3,1147,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3061,7 +3065,7 @@ label(1),
     proceed]).
 
 
-predicate(is_exported/2,1154,static,private,monofile,global,[
+predicate(is_exported/2,1155,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3078,7 +3082,7 @@ predicate(is_exported/2,1154,static,private,monofile,global,[
     proceed]).
 
 
-predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
+predicate(get_module_of_cur_pred/1,1161,static,private,monofile,global,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -3091,7 +3095,7 @@ predicate(get_module_of_cur_pred/1,1160,static,private,monofile,global,[
     execute('$get_module_of_cur_pred/1_$aux1'/3)]).
 
 
-predicate('$get_module_of_cur_pred/1_$aux1'/3,1160,static,private,monofile,local,[
+predicate('$get_module_of_cur_pred/1_$aux1'/3,1161,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3130,7 +3134,7 @@ label(2),
     proceed]).
 
 
-predicate(directive_set_flag_for_preds/2,1172,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds/2,1173,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     switch_on_term(1,2,fail,4,fail),
@@ -3165,7 +3169,7 @@ label(4),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate(directive_set_flag_for_preds1/3,1179,static,private,monofile,global,[
+predicate(directive_set_flag_for_preds1/3,1180,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3221,7 +3225,7 @@ label(3),
     execute('$directive_set_flag_for_preds1/3_$aux1'/3)]).
 
 
-predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1191,static,private,monofile,local,[
+predicate('$directive_set_flag_for_preds1/3_$aux1'/3,1192,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(6),
@@ -3253,7 +3257,7 @@ label(6),
     proceed]).
 
 
-predicate(define_predicate/2,1203,static,private,monofile,global,[
+predicate(define_predicate/2,1204,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3315,11 +3319,11 @@ label(4),
     proceed]).
 
 
-predicate(flag_bit/2,1223,static,private,monofile,global,[
+predicate(flag_bit/2,1224,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
-    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21)]),
+    switch_on_atom([(def,3),(dyn,5),(pub,7),(bpl,9),(bfd,11),(discontig,13),(need_cut_level,15),(meta,17),(multi,19),(embed,21),(dyn_wrap,23)]),
 
 label(2),
     try_me_else(4),
@@ -3394,15 +3398,23 @@ label(19),
     proceed,
 
 label(20),
-    trust_me_else_fail,
+    retry_me_else(22),
 
 label(21),
     get_atom(embed,0),
     get_integer(9,1),
+    proceed,
+
+label(22),
+    trust_me_else_fail,
+
+label(23),
+    get_atom(dyn_wrap,0),
+    get_integer(10,1),
     proceed]).
 
 
-predicate(set_pred_flag/3,1238,static,private,monofile,global,[
+predicate(set_pred_flag/3,1240,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3430,7 +3442,7 @@ predicate(set_pred_flag/3,1238,static,private,monofile,global,[
     execute(assertz/1)]).
 
 
-predicate('$set_pred_flag/3_$aux1'/4,1238,static,private,monofile,local,[
+predicate('$set_pred_flag/3_$aux1'/4,1240,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -3450,7 +3462,7 @@ label(1),
     proceed]).
 
 
-predicate(unset_pred_flag/3,1249,static,private,monofile,global,[
+predicate(unset_pred_flag/3,1251,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3484,7 +3496,7 @@ label(1),
     proceed]).
 
 
-predicate(test_pred_flag/3,1260,static,private,monofile,global,[
+predicate(test_pred_flag/3,1262,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     allocate(5),
@@ -3511,7 +3523,7 @@ predicate(test_pred_flag/3,1260,static,private,monofile,global,[
     proceed]).
 
 
-predicate(test_not_pred_flag/3,1268,static,private,monofile,global,[
+predicate(test_not_pred_flag/3,1270,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -3543,7 +3555,7 @@ label(1),
     proceed]).
 
 
-predicate(check_predicate/2,1323,static,private,monofile,global,[
+predicate(check_predicate/2,1325,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3658,7 +3670,7 @@ label(5),
     proceed]).
 
 
-predicate(reserved_predicate/2,1352,static,private,monofile,global,[
+predicate(reserved_predicate/2,1354,static,private,monofile,global,[
     switch_on_term(3,1,fail,fail,fail),
 
 label(1),
@@ -3693,7 +3705,7 @@ label(8),
     proceed]).
 
 
-predicate(bip/2,1357,static,private,monofile,global,[
+predicate(bip/2,1359,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3705,7 +3717,7 @@ predicate(bip/2,1357,static,private,monofile,global,[
     proceed]).
 
 
-predicate(control_construct/2,1365,static,private,monofile,global,[
+predicate(control_construct/2,1367,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3784,7 +3796,7 @@ label(19),
     proceed]).
 
 
-predicate(suspicious_predicate/2,1382,static,private,monofile,global,[
+predicate(suspicious_predicate/2,1384,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -3849,7 +3861,7 @@ label(15),
     proceed]).
 
 
-predicate(warn/2,1393,static,private,monofile,global,[
+predicate(warn/2,1395,static,private,monofile,global,[
     put_value(x(0),2),
     put_value(x(1),3),
     put_atom(warning,0),
@@ -3857,7 +3869,7 @@ predicate(warn/2,1393,static,private,monofile,global,[
     execute(disp_msg/4)]).
 
 
-predicate(error/2,1399,static,private,monofile,global,[
+predicate(error/2,1401,static,private,monofile,global,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(1),
@@ -3874,7 +3886,7 @@ predicate(error/2,1399,static,private,monofile,global,[
     execute(abandon_exec/0)]).
 
 
-predicate('$error/2_$aux1'/1,1399,static,private,monofile,local,[
+predicate('$error/2_$aux1'/1,1401,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -3890,11 +3902,11 @@ label(1),
     proceed]).
 
 
-predicate(abandon_exec/0,1411,static,private,monofile,global,[
+predicate(abandon_exec/0,1413,static,private,monofile,global,[
     execute(abort/0)]).
 
 
-predicate(disp_msg/4,1417,static,private,monofile,global,[
+predicate(disp_msg/4,1419,static,private,monofile,global,[
     allocate(4),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -3919,7 +3931,7 @@ predicate(disp_msg/4,1417,static,private,monofile,global,[
     execute(nl/0)]).
 
 
-predicate('$disp_msg/4_$aux1'/2,1417,static,private,monofile,local,[
+predicate('$disp_msg/4_$aux1'/2,1419,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -3946,7 +3958,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_file_name/3,1434,static,private,monofile,global,[
+predicate(disp_file_name/3,1436,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(1,2,fail,4,fail),
@@ -3982,7 +3994,7 @@ label(4),
     execute('$disp_file_name/3_$aux1'/3)]).
 
 
-predicate('$disp_file_name/3_$aux1'/3,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux1'/3,1439,static,private,monofile,local,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -4015,7 +4027,7 @@ label(1),
     execute(format/2)]).
 
 
-predicate('$disp_file_name/3_$aux2'/2,1437,static,private,monofile,local,[
+predicate('$disp_file_name/3_$aux2'/2,1439,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4031,7 +4043,7 @@ label(1),
     proceed]).
 
 
-predicate(disp_lines/1,1453,static,private,monofile,global,[
+predicate(disp_lines/1,1455,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     switch_on_term(3,fail,fail,fail,1),
@@ -4073,7 +4085,7 @@ label(6),
     execute(format/2)]).
 
 
-predicate(disp_column/1,1462,static,private,monofile,global,[
+predicate(disp_column/1,1464,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4093,7 +4105,7 @@ label(1),
     execute(write/1)]).
 
 
-predicate(exception/1,1474,static,private,monofile,global,[
+predicate(exception/1,1476,static,private,monofile,global,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(11),
@@ -4193,7 +4205,7 @@ label(11),
     execute(error/2)]).
 
 
-predicate(handle_directive/3,688,static,private,monofile,global,[
+predicate(handle_directive/3,689,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(3,1,fail,fail,fail),
@@ -4640,7 +4652,7 @@ label(44),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux9'/2,826,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux9'/2,827,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4668,7 +4680,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux8'/2,805,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux8'/2,806,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4720,7 +4732,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux7'/2,788,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux7'/2,789,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -4745,7 +4757,7 @@ label(1),
     execute(error/2)]).
 
 
-predicate('$handle_directive/3_$aux6'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux6'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4758,7 +4770,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux10'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux10'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4782,7 +4794,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux5'/1,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux5'/1,767,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4795,7 +4807,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux11'/0,766,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux11'/0,767,static,private,monofile,local,[
     pragma_arity(1),
     get_current_choice(x(0)),
     try_me_else(1),
@@ -4819,7 +4831,7 @@ label(1),
     proceed]).
 
 
-predicate('$handle_directive/3_$aux4'/1,735,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux4'/1,736,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4836,7 +4848,7 @@ label(1),
     execute(add_ensure_linked/1)]).
 
 
-predicate('$handle_directive/3_$aux3'/1,727,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux3'/1,728,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4853,7 +4865,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux2'/1,719,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux2'/1,720,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -4870,7 +4882,7 @@ label(1),
     execute(directive_set_flag_for_preds/2)]).
 
 
-predicate('$handle_directive/3_$aux1'/1,711,static,private,monofile,local,[
+predicate('$handle_directive/3_$aux1'/1,712,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),0),
-- 
2.43.0


From cfa84c7b03dfb7ce972c654c99e98ec592df885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 06/91] fix: first argument indexing does not skip a clause
 whose inline goals can raise an error or have a side-effect

---
 src/Pl2Wam/first_arg.pl  |  33 +++++++
 src/Pl2Wam/first_arg.wam | 193 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 219 insertions(+), 7 deletions(-)

diff --git a/src/Pl2Wam/first_arg.pl b/src/Pl2Wam/first_arg.pl
index 0704dd9..15751e4 100644
--- a/src/Pl2Wam/first_arg.pl
+++ b/src/Pl2Wam/first_arg.pl
@@ -56,6 +56,12 @@ stopping_inst(cut(_)).
 
 stopping_inst(soft_cut(_)).
 
+	% a clause cannot be skipped if it starts with an inline predicate which
+	% can raise an error or has a side-effect (arithmetic, g_assign,...)
+
+stopping_inst(call_c(FctName, _, _)) :-
+	\+ pure_test(FctName).
+
 stopping_inst(WamInst) :-
 	codification(WamInst, LCode),
 	assign_x0(LCode).
@@ -63,6 +69,33 @@ stopping_inst(WamInst) :-
 
 
 
+pure_test('Pl_Blt_Var').
+pure_test('Pl_Blt_Non_Var').
+pure_test('Pl_Blt_Atom').
+pure_test('Pl_Blt_Integer').
+pure_test('Pl_Blt_Float').
+pure_test('Pl_Blt_Number').
+pure_test('Pl_Blt_Atomic').
+pure_test('Pl_Blt_Compound').
+pure_test('Pl_Blt_Callable').
+pure_test('Pl_Blt_Ground').
+pure_test('Pl_Blt_List').
+pure_test('Pl_Blt_Partial_List').
+pure_test('Pl_Blt_List_Or_Partial_List').
+pure_test('Pl_Blt_Fd_Var').
+pure_test('Pl_Blt_Non_Fd_Var').
+pure_test('Pl_Blt_Generic_Var').
+pure_test('Pl_Blt_Non_Generic_Var').
+pure_test('Pl_Blt_Term_Eq').
+pure_test('Pl_Blt_Term_Neq').
+pure_test('Pl_Blt_Term_Lt').
+pure_test('Pl_Blt_Term_Lte').
+pure_test('Pl_Blt_Term_Gt').
+pure_test('Pl_Blt_Term_Gte').
+
+
+
+
 assign_x0([Code|LCode]) :-
 	(   Code = w(0)
 	;   Code = c(R1, R2),
diff --git a/src/Pl2Wam/first_arg.wam b/src/Pl2Wam/first_arg.wam
index 64d53d9..4f2049a 100644
--- a/src/Pl2Wam/first_arg.wam
+++ b/src/Pl2Wam/first_arg.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: first_arg.pl
-% hash: ca7cb8b0b179d771843f9f65afdb35e72c2f22fb  first_arg.pl
+% hash: 04ea0679ce5f6ce30b2ea8730abce2480e23f81b  first_arg.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/first_arg.pl').
@@ -56,11 +56,11 @@ label(2),
 
 
 predicate(stopping_inst/1,51,static,private,monofile,global,[
-    try_me_else(10),
+    try_me_else(12),
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9)]),
+    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9),(call_c/3,11)]),
 
 label(2),
     try_me_else(4),
@@ -87,7 +87,7 @@ label(7),
     proceed,
 
 label(8),
-    trust_me_else_fail,
+    retry_me_else(10),
 
 label(9),
     get_structure(soft_cut/1,0),
@@ -96,6 +96,17 @@ label(9),
 
 label(10),
     trust_me_else_fail,
+
+label(11),
+    get_structure(call_c/3,0),
+    unify_variable(x(1)),
+    unify_void(2),
+    put_structure(pure_test/1,0),
+    unify_value(x(1)),
+    execute((\+)/1),
+
+label(12),
+    trust_me_else_fail,
     allocate(1),
     put_variable(y(0),1),
     call(codification/2),
@@ -104,14 +115,182 @@ label(10),
     execute(assign_x0/1)]).
 
 
-predicate(assign_x0/1,66,static,private,monofile,global,[
+predicate(pure_test/1,72,static,private,monofile,global,[
+    switch_on_term(2,1,fail,fail,fail),
+
+label(1),
+    switch_on_atom([('Pl_Blt_Var',3),('Pl_Blt_Non_Var',5),('Pl_Blt_Atom',7),('Pl_Blt_Integer',9),('Pl_Blt_Float',11),('Pl_Blt_Number',13),('Pl_Blt_Atomic',15),('Pl_Blt_Compound',17),('Pl_Blt_Callable',19),('Pl_Blt_Ground',21),('Pl_Blt_List',23),('Pl_Blt_Partial_List',25),('Pl_Blt_List_Or_Partial_List',27),('Pl_Blt_Fd_Var',29),('Pl_Blt_Non_Fd_Var',31),('Pl_Blt_Generic_Var',33),('Pl_Blt_Non_Generic_Var',35),('Pl_Blt_Term_Eq',37),('Pl_Blt_Term_Neq',39),('Pl_Blt_Term_Lt',41),('Pl_Blt_Term_Lte',43),('Pl_Blt_Term_Gt',45),('Pl_Blt_Term_Gte',47)]),
+
+label(2),
+    try_me_else(4),
+
+label(3),
+    get_atom('Pl_Blt_Var',0),
+    proceed,
+
+label(4),
+    retry_me_else(6),
+
+label(5),
+    get_atom('Pl_Blt_Non_Var',0),
+    proceed,
+
+label(6),
+    retry_me_else(8),
+
+label(7),
+    get_atom('Pl_Blt_Atom',0),
+    proceed,
+
+label(8),
+    retry_me_else(10),
+
+label(9),
+    get_atom('Pl_Blt_Integer',0),
+    proceed,
+
+label(10),
+    retry_me_else(12),
+
+label(11),
+    get_atom('Pl_Blt_Float',0),
+    proceed,
+
+label(12),
+    retry_me_else(14),
+
+label(13),
+    get_atom('Pl_Blt_Number',0),
+    proceed,
+
+label(14),
+    retry_me_else(16),
+
+label(15),
+    get_atom('Pl_Blt_Atomic',0),
+    proceed,
+
+label(16),
+    retry_me_else(18),
+
+label(17),
+    get_atom('Pl_Blt_Compound',0),
+    proceed,
+
+label(18),
+    retry_me_else(20),
+
+label(19),
+    get_atom('Pl_Blt_Callable',0),
+    proceed,
+
+label(20),
+    retry_me_else(22),
+
+label(21),
+    get_atom('Pl_Blt_Ground',0),
+    proceed,
+
+label(22),
+    retry_me_else(24),
+
+label(23),
+    get_atom('Pl_Blt_List',0),
+    proceed,
+
+label(24),
+    retry_me_else(26),
+
+label(25),
+    get_atom('Pl_Blt_Partial_List',0),
+    proceed,
+
+label(26),
+    retry_me_else(28),
+
+label(27),
+    get_atom('Pl_Blt_List_Or_Partial_List',0),
+    proceed,
+
+label(28),
+    retry_me_else(30),
+
+label(29),
+    get_atom('Pl_Blt_Fd_Var',0),
+    proceed,
+
+label(30),
+    retry_me_else(32),
+
+label(31),
+    get_atom('Pl_Blt_Non_Fd_Var',0),
+    proceed,
+
+label(32),
+    retry_me_else(34),
+
+label(33),
+    get_atom('Pl_Blt_Generic_Var',0),
+    proceed,
+
+label(34),
+    retry_me_else(36),
+
+label(35),
+    get_atom('Pl_Blt_Non_Generic_Var',0),
+    proceed,
+
+label(36),
+    retry_me_else(38),
+
+label(37),
+    get_atom('Pl_Blt_Term_Eq',0),
+    proceed,
+
+label(38),
+    retry_me_else(40),
+
+label(39),
+    get_atom('Pl_Blt_Term_Neq',0),
+    proceed,
+
+label(40),
+    retry_me_else(42),
+
+label(41),
+    get_atom('Pl_Blt_Term_Lt',0),
+    proceed,
+
+label(42),
+    retry_me_else(44),
+
+label(43),
+    get_atom('Pl_Blt_Term_Lte',0),
+    proceed,
+
+label(44),
+    retry_me_else(46),
+
+label(45),
+    get_atom('Pl_Blt_Term_Gt',0),
+    proceed,
+
+label(46),
+    trust_me_else_fail,
+
+label(47),
+    get_atom('Pl_Blt_Term_Gte',0),
+    proceed]).
+
+
+predicate(assign_x0/1,99,static,private,monofile,global,[
     get_list(0),
     unify_variable(x(0)),
     unify_variable(x(1)),
     execute('$assign_x0/1_$aux1'/2)]).
 
 
-predicate('$assign_x0/1_$aux1'/2,66,static,private,monofile,local,[
+predicate('$assign_x0/1_$aux1'/2,99,static,private,monofile,local,[
     try_me_else(6),
     switch_on_term(2,fail,fail,fail,1),
 
@@ -143,7 +322,7 @@ label(6),
     execute(assign_x0/1)]).
 
 
-predicate(defines_first_arg/2,77,static,private,monofile,global,[
+predicate(defines_first_arg/2,110,static,private,monofile,global,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-- 
2.43.0


From e575205603a02966683e282ebaf190c93fc09627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 07/91] fix: alternatives of a soft-cut condition never revive
 its else branch nor unchain another choice-point

---
 src/EnginePl/wam_inst.c | 54 ++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index e54c22d..d3546b0 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -1309,41 +1309,45 @@ Pl_Cut(WamWord b_word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * SOFT_CUT_FAIL                                                           *
+ *                                                                         *
+ * Alternative of a choice-point killed by a soft-cut: pop it and fail.    *
+ *-------------------------------------------------------------------------*/
+static void
+Soft_Cut_Fail(void)
+{
+#ifdef M_ix86_darwin            /* see comment in Ma2Asm/ix86_any.c */
+  asm("subl $4,%esp");
+#elif defined(M_x86_64) && !defined(_MSC_VER)   /* see comment in Ma2Asm/x86_64_any.c */
+  asm("subq $8,%rsp");
+#endif
+  Assign_B(BB(B));
+  Pl_Execute_A_Continuation(ALTB(B));
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_SOFT_CUT                                                             *
  *                                                                         *
  * Called by compiled prolog code.                                         *
+ *                                                                         *
+ * Kill the choice-point pointed by b_word. If there are more recent       *
+ * choice-points it is not unchained but its alternative is replaced by a  *
+ * failure: other alternatives of the condition can refer to it (to cut or *
+ * to redo the soft-cut).                                                  *
  *-------------------------------------------------------------------------*/
 void FC
 Pl_Soft_Cut(WamWord b_word)
 {
   WamWord *kill_B = From_WamWord_To_B(b_word);
-  WamWord *cur_B = B;
-  WamWord *prev_B;
-
-  /* soft cut: unchain the choice-point pointed by kill_B */
-
-  if (cur_B == kill_B)
-    {
-      Assign_B(BB(cur_B));
-      return;
-    }
 
-  for(;;)
-    {
-      prev_B = BB(cur_B);
-
-      if (prev_B == kill_B)	/* found */
-	{
-	  BB(cur_B) = BB(kill_B);
-	  break;
-	}
-
-      if (cur_B < kill_B)	/* not found (can occur at backtracking since already unchained) */
-	break;
-
-      cur_B = prev_B;
-    }
+  if (B == kill_B)
+    Assign_B(BB(kill_B));
+  else
+    ALTB(kill_B) = (CodePtr) Soft_Cut_Fail;
 }
 
 
-- 
2.43.0


From 04c9633d6cb05633a1b328e9e76dc0da90ca0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 08/91] fix: call/1 and body conversion treat the arguments of
 a soft-cut as goals

---
 src/BipsPl/utils.pl  |  5 +++++
 src/BipsPl/utils.wam | 52 +++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/utils.pl b/src/BipsPl/utils.pl
index 2c9f213..f1fcb28 100644
--- a/src/BipsPl/utils.pl
+++ b/src/BipsPl/utils.pl
@@ -70,6 +70,11 @@
 	'$term_to_goal2'(P, P1),
 	'$term_to_goal2'(Q, Q1).
 
+'$term_to_goal2'((P *-> Q), (P1 *-> Q1)) :-
+	!,
+	'$term_to_goal2'(P, P1),
+	'$term_to_goal2'(Q, Q1).
+
 '$term_to_goal2'((P, Q), (P1, Q1)) :-
 	!,
 	'$term_to_goal2'(P, P1),
diff --git a/src/BipsPl/utils.wam b/src/BipsPl/utils.wam
index 34b5138..086ae9c 100644
--- a/src/BipsPl/utils.wam
+++ b/src/BipsPl/utils.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: utils.pl
-% hash: 01de49572bcd6fe75b31fbf4ef2a1717bd527361  utils.pl
+% hash: c56a23910d46b91b49a5dd76d731f25f1b045987  utils.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/utils.pl').
@@ -67,11 +67,11 @@ predicate('$term_to_goal2'/2,59,static,private,monofile,built_in,[
     execute('$$term_to_goal2/2_$aux1'/3),
 
 label(1),
-    retry_me_else(9),
+    retry_me_else(11),
     switch_on_term(3,fail,fail,fail,2),
 
 label(2),
-    switch_on_structure([((->)/2,4),((',')/2,6),((;)/2,8)]),
+    switch_on_structure([((->)/2,4),((*->)/2,6),((',')/2,8),((;)/2,10)]),
 
 label(3),
     try_me_else(5),
@@ -95,6 +95,24 @@ label(5),
     retry_me_else(7),
 
 label(6),
+    allocate(2),
+    get_structure((*->)/2,0),
+    unify_variable(x(0)),
+    unify_variable(y(0)),
+    get_structure((*->)/2,1),
+    unify_variable(x(1)),
+    unify_variable(y(1)),
+    cut(x(2)),
+    call('$term_to_goal2'/2),
+    put_value(y(0),0),
+    put_value(y(1),1),
+    deallocate,
+    execute('$term_to_goal2'/2),
+
+label(7),
+    retry_me_else(9),
+
+label(8),
     allocate(2),
     get_structure((',')/2,0),
     unify_variable(x(0)),
@@ -109,10 +127,10 @@ label(6),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(7),
+label(9),
     trust_me_else_fail,
 
-label(8),
+label(10),
     allocate(2),
     get_structure((;)/2,0),
     unify_variable(x(0)),
@@ -127,7 +145,7 @@ label(8),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(9),
+label(11),
     trust_me_else_fail,
     get_value(x(1),0),
     call_c('Pl_Blt_Callable',[fast_call,boolean],[x(1)]),
@@ -152,7 +170,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_list'/1,93,static,private,monofile,built_in,[
+predicate('$check_list'/1,98,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -173,7 +191,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_list_or_partial_list'/1,106,static,private,monofile,built_in,[
+predicate('$check_list_or_partial_list'/1,111,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -188,7 +206,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list'/1,115,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list'/1,120,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -206,7 +224,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_atom_or_atom_list1'/1,122,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list1'/1,127,static,private,monofile,built_in,[
     try_me_else(1),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(0)]),
     execute('$pl_err_instantiation'/0),
@@ -242,7 +260,7 @@ label(6),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list2'/1,136,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list2'/1,141,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -263,7 +281,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$get_head_and_body'/3,149,static,private,monofile,built_in,[
+predicate('$get_head_and_body'/3,154,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -282,7 +300,7 @@ label(1),
     execute('$check_head'/1)]).
 
 
-predicate('$check_head'/1,159,static,private,monofile,built_in,[
+predicate('$check_head'/1,164,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -295,7 +313,7 @@ label(1),
     execute('$$check_head/1_$aux1'/1)]).
 
 
-predicate('$$check_head/1_$aux1'/1,163,static,private,monofile,local,[
+predicate('$$check_head/1_$aux1'/1,168,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -310,7 +328,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_nonvar'/1,172,static,private,monofile,built_in,[
+predicate('$check_nonvar'/1,177,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -323,7 +341,7 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$check_ground'/1,181,static,private,monofile,built_in,[
+predicate('$check_ground'/1,186,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -336,6 +354,6 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$get_pred_indic'/3,190,static,private,monofile,built_in,[
+predicate('$get_pred_indic'/3,195,static,private,monofile,built_in,[
     call_c('Pl_Get_Pred_Indic_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
-- 
2.43.0


From 054412dfb65c00c818d629ccc9dc75ae937098f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 09/91] fix: switch_on_integer handles integers which do not
 fit in a C int

---
 src/Ma2Asm/ma2asm.c | 2 +-
 src/Wam2Ma/wam2ma.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ma2Asm/ma2asm.c b/src/Ma2Asm/ma2asm.c
index d521b0d..34ead55 100644
--- a/src/Ma2Asm/ma2asm.c
+++ b/src/Ma2Asm/ma2asm.c
@@ -727,7 +727,7 @@ Switch_Equal(SwtInf *c)
 int
 Switch_Cmp_Int(SwtInf *c1, SwtInf *c2)
 {
-  return (int) (c1->int_val - c2->int_val);
+  return (c1->int_val > c2->int_val) - (c1->int_val < c2->int_val);	/* a difference could overflow */
 }
 
 
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 25adc5c..1e6a8c3 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -1432,7 +1432,7 @@ F_switch_on_integer(ArgVal arg[])
   c = '(';
   for(i = 0; i < nb_elem; i++)
     {
-      LOAD_C_INT(n);
+      LOAD_INTEGER(n);
       LOAD_LABEL(l);
       if (i % 5 == 0 && i > 0)
 	{
-- 
2.43.0


From 2115354ae3e5a8d1ed5bc3540fc287741a3cab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 10/91] fix: solutions of a findall left by an exception are
 not added to those of the enclosing findall, bagof or setof

---
 src/BipsPl/all_solut.pl  |  2 +-
 src/BipsPl/all_solut.wam | 22 +++++++++------
 src/BipsPl/all_solut_c.c | 59 ++++++++++++++++++++++++++++++++++++----
 3 files changed, 67 insertions(+), 16 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..c4eff85 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -103,7 +103,7 @@ bagof(Template, Generator, Instances) :-
 '$store_solutions'(Template, Generator, Stop, BipFunc, BipArity) :-
 	'$call_c'('Pl_Stop_Mark_1'(Stop)),
 	(   '$call'(Generator, BipFunc, BipArity, true),
-	    '$call_c'('Pl_Store_Solution_1'(Template)),
+	    '$call_c'('Pl_Store_Solution_2'(Template, Stop)),
 	    fail
 	;   true
 	).
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index a68d0ed..8773350 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 7d0ee7eaf19ee8e6ecfa0b993f204ab7e8376ae8  all_solut.pl
+% hash: 2ab1d40733846884f8d7d98598c567d6f4509e52  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -179,23 +179,27 @@ label(1),
 
 
 predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
-    get_variable(x(5),3),
+    get_variable(x(5),4),
+    get_variable(x(6),3),
+    get_variable(x(4),2),
     get_variable(x(3),0),
-    call_c('Pl_Stop_Mark_1',[],[x(2)]),
+    call_c('Pl_Stop_Mark_1',[],[x(4)]),
     put_value(x(1),0),
-    put_value(x(5),1),
-    put_value(x(4),2),
-    execute('$$store_solutions/5_$aux1'/4)]).
+    put_value(x(6),1),
+    put_value(x(5),2),
+    execute('$$store_solutions/5_$aux1'/5)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/5,103,static,private,monofile,local,[
     try_me_else(1),
-    allocate(1),
+    allocate(2),
     get_variable(y(0),3),
+    get_variable(y(1),4),
     put_atom(true,3),
     call('$call'/4),
     put_value(y(0),0),
-    call_c('Pl_Store_Solution_1',[],[x(0)]),
+    put_value(y(1),1),
+    call_c('Pl_Store_Solution_2',[],[x(0),x(1)]),
     fail,
 
 label(1),
diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..ce3c4f2 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -64,6 +64,7 @@ typedef struct onesol
 {
   OneSolP prev;
   int sol_no;
+  int stop_no;			/* sol_no of the stop mark it belongs to */
   int term_size;
   WamWord term_word;
 }
@@ -87,7 +88,7 @@ static WamWord *free_var_base;
 
 
 
-static OneSol dummy = { NULL, 0, 0, NOT_A_WAM_WORD };
+static OneSol dummy = { NULL, 0, 0, 0, NOT_A_WAM_WORD };
 static OneSol *sol = &dummy;
 
 static WamWord *key_var_ptr;
@@ -292,8 +293,11 @@ Free_Var(WamWord *adr, WamWord var_word)
  * This part saves and restores all solutions found. A stack of solutions  *
  * is used (each solution is copied to a Mallocated memory area). To handle*
  * nested findall and al, each solution receive a sequential number. At the*
- * start, the number of the solution on the top of the stack serves as a   *
- * stop mark.                                                              *
+ * start, a stop mark is pushed on the stack: its number identifies the    *
+ * findall (each solution records the number of its stop mark). If an      *
+ * exception leaves a nested findall, its stop mark and its solutions stay *
+ * on the stack: they are discarded when the findall which encloses it     *
+ * stores or recovers solutions (see Discard_Nested_Solutions).            *
  *                                                                         *
  * Recovering the solutions: a space for the list of (nb_sol) solutions is *
  * reserved on the top of the heap (nb_sol*2 WamWords) then each term is   *
@@ -344,6 +348,15 @@ Free_Var(WamWord *adr, WamWord var_word)
 void
 Pl_Stop_Mark_1(WamWord stop_word)
 {
+  OneSol *s;
+
+  s = (OneSol *) Malloc(sizeof(OneSol));
+  s->prev = sol;
+  s->sol_no = s->stop_no = sol->sol_no + 1;
+  s->term_size = 0;
+  s->term_word = NOT_A_WAM_WORD;
+  sol = s;
+
   Pl_Get_Integer(sol->sol_no, stop_word);
 }
 
@@ -351,11 +364,32 @@ Pl_Stop_Mark_1(WamWord stop_word)
 
 
 /*-------------------------------------------------------------------------*
- * PL_STORE_SOLUTION_1                                                     *
+ * DISCARD_NESTED_SOLUTIONS                                                *
+ *                                                                         *
+ * Discard what nested findall left by an exception has let on the stack.  *
+ *-------------------------------------------------------------------------*/
+static void
+Discard_Nested_Solutions(int stop)
+{
+  OneSol *s;
+
+  while (sol->stop_no > stop)
+    {
+      s = sol;
+      sol = sol->prev;
+      Free(s);
+    }
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_STORE_SOLUTION_2                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
 void
-Pl_Store_Solution_1(WamWord term_word)
+Pl_Store_Solution_2(WamWord term_word, WamWord stop_word)
 {
   OneSol *s;
   int size;
@@ -364,11 +398,14 @@ Pl_Store_Solution_1(WamWord term_word)
  * This corrupts ebp on ix86 */
   static WamWord fix_bug;
 
+  Discard_Nested_Solutions((int) Pl_Rd_C_Int(stop_word));
+
   size = Pl_Term_Size(term_word);
 
   s = (OneSol *) Malloc(sizeof(OneSol) - sizeof(WamWord) + size * sizeof(WamWord));
   s->prev = sol;
   s->sol_no = sol->sol_no + 1;
+  s->stop_no = sol->stop_no;
   s->term_size = size;
   fix_bug = term_word;
   Pl_Copy_Term(&s->term_word, &fix_bug);
@@ -393,10 +430,16 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
   Bool handle_key;
 
   stop = Pl_Rd_C_Int(stop_word);
+  Discard_Nested_Solutions(stop);
   nb_sol = sol->sol_no - stop;
 
   if (nb_sol == 0)
-    return Pl_Unify(list_word, tail_word);
+    {
+      s = sol;			/* pop the stop mark */
+      sol = sol->prev;
+      Free(s);
+      return Pl_Unify(list_word, tail_word);
+    }
 
   handle_key = Pl_Rd_C_Int(handle_key_word);
   key_var_ptr = pl_glob_dico_var;	/* pl_glob_dico_var: key vars */
@@ -430,6 +473,10 @@ Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
       Free(s);
     }
 
+  s = sol;			/* pop the stop mark */
+  sol = sol->prev;
+  Free(s);
+
   q[-1] = tail_word;
   return Pl_Unify(Tag_LST(p), list_word);
 }
-- 
2.43.0


From de9cd9c2649db92c9471a46fbbd8597fb80b87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 11/91] fix: an FD variable does not unify with an integer
 whose low 32 bits are in its domain

---
 src/EnginePl/if_no_fd.h | 3 ++-
 src/EnginePl/unify.c    | 4 ++--
 src/EnginePl/wam_inst.c | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/EnginePl/if_no_fd.h b/src/EnginePl/if_no_fd.h
index 6e6e7a3..a2c8b3b 100644
--- a/src/EnginePl/if_no_fd.h
+++ b/src/EnginePl/if_no_fd.h
@@ -83,7 +83,8 @@ void Pl_Fd_Init_Solver(void);
 
 void Pl_Fd_Reset_Solver(void);
 
-#define Fd_Unify_With_Integer(f, n) ((*pl_fd_unify_with_integer)(f, n))
+/* n is a PlLong: an integer which does not fit in an int is in no domain */
+#define Fd_Unify_With_Integer(f, n) ((n) == (int) (n) && (*pl_fd_unify_with_integer)(f, (int) (n)))
 
 #define Fd_Unify_With_Fd_Var(f1, f2)((*pl_fd_unify_with_fd_var)(f1, f2))
 
diff --git a/src/EnginePl/unify.c b/src/EnginePl/unify.c
index f4444be..06d4511 100644
--- a/src/EnginePl/unify.c
+++ b/src/EnginePl/unify.c
@@ -148,14 +148,14 @@ UNIFY_FCT_NAME(WamWord start_u_word, WamWord start_v_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (v_tag_mask == TAG_INT_MASK && u_tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(u_word), (int) UnTag_INT(v_word));
+    return Fd_Unify_With_Integer(UnTag_FDV(u_word), UnTag_INT(v_word));
 
   if (v_tag_mask == TAG_FDV_MASK)
     {
       v_adr = UnTag_FDV(v_word);
 
       if (u_tag_mask == TAG_INT_MASK)
-	return Fd_Unify_With_Integer(v_adr, (int) UnTag_INT(u_word));
+	return Fd_Unify_With_Integer(v_adr, UnTag_INT(u_word));
 
       if (u_tag_mask != v_tag_mask) /* i.e. TAG_FDV_MASK */
 	return FALSE;
diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index d3546b0..df6e714 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -256,7 +256,7 @@ Pl_Get_Integer_Tagged(WamWord w, WamWord start_word)
 
 #ifndef NO_USE_FD_SOLVER
   if (tag_mask == TAG_FDV_MASK)
-    return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+    return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
   return (word == w);
@@ -875,7 +875,7 @@ Pl_Unify_Integer_Tagged(WamWord w)
 
 #ifndef NO_USE_FD_SOLVER
       if (tag_mask == TAG_FDV_MASK)
-	return Fd_Unify_With_Integer(UnTag_FDV(word), (int) UnTag_INT(w));
+	return Fd_Unify_With_Integer(UnTag_FDV(word), UnTag_INT(w));
 #endif
 
       return (word == w);
-- 
2.43.0


From 9f55f4d24e287f9ce64201c384f0594fe9552235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 12/91] fix: bind_variables/2 accepts an unbound next(N) and
 reports an ill-typed from(N)

---
 src/BipsPl/pretty.pl  |  2 --
 src/BipsPl/pretty.wam | 24 +++++-------------------
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/BipsPl/pretty.pl b/src/BipsPl/pretty.pl
index b50f65f..e15fc44 100644
--- a/src/BipsPl/pretty.pl
+++ b/src/BipsPl/pretty.pl
@@ -142,11 +142,9 @@ bind_variables(Term, Options) :-
 	g_link('$bind_exclude', Exclude).
 
 '$get_bind_variables_options2'(from(From)) :-
-	'$check_nonvar'(From), integer(From),
 	g_link('$bind_from', From).
 
 '$get_bind_variables_options2'(next(Next)) :-
-	'$check_nonvar'(Next), integer(Next),
 	g_link('$bind_next', Next).
 
 '$get_bind_variables_options2'(numbervars) :-
diff --git a/src/BipsPl/pretty.wam b/src/BipsPl/pretty.wam
index 9c43466..35b6b9c 100644
--- a/src/BipsPl/pretty.wam
+++ b/src/BipsPl/pretty.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: pretty.pl
-% hash: e5f65b4223376badd4510ec9a9e97842031031a9  pretty.pl
+% hash: 862cbfe1fb31be54af6d64dcf123f20430953330  pretty.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/pretty.pl').
@@ -243,34 +243,20 @@ label(6),
     retry_me_else(8),
 
 label(7),
-    allocate(1),
     get_structure(from/1,0),
-    unify_variable(y(0)),
-    put_value(y(0),0),
-    call('$check_nonvar'/1),
-    put_value(y(0),0),
-    call_c('Pl_Blt_Integer',[fast_call,boolean],[x(0)]),
+    unify_variable(x(1)),
     put_atom('$bind_from',0),
-    put_value(y(0),1),
     call_c('Pl_Blt_G_Link',[fast_call],[x(0),x(1)]),
-    deallocate,
     proceed,
 
 label(8),
     retry_me_else(10),
 
 label(9),
-    allocate(1),
     get_structure(next/1,0),
-    unify_variable(y(0)),
-    put_value(y(0),0),
-    call('$check_nonvar'/1),
-    put_value(y(0),0),
-    call_c('Pl_Blt_Integer',[fast_call,boolean],[x(0)]),
+    unify_variable(x(1)),
     put_atom('$bind_next',0),
-    put_value(y(0),1),
     call_c('Pl_Blt_G_Link',[fast_call],[x(0),x(1)]),
-    deallocate,
     proceed,
 
 label(10),
@@ -298,7 +284,7 @@ label(14),
     execute('$pl_err_domain'/2)]).
 
 
-predicate(numbervars/1,164,static,private,monofile,built_in,[
+predicate(numbervars/1,162,static,private,monofile,built_in,[
     allocate(1),
     get_variable(y(0),0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[numbervars,1]),
@@ -311,7 +297,7 @@ predicate(numbervars/1,164,static,private,monofile,built_in,[
     execute('$bind_variables'/4)]).
 
 
-predicate(numbervars/3,170,static,private,monofile,built_in,[
+predicate(numbervars/3,168,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
-- 
2.43.0


From 0c7ac01d816bdceb5077d3099274b720c2379371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 13/91] fix: member/2 does not lose solutions when an element
 shares a variable with the open tail

---
 src/BipsPl/list_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/list_c.c b/src/BipsPl/list_c.c
index 9f14da8..0be7aa3 100644
--- a/src/BipsPl/list_c.c
+++ b/src/BipsPl/list_c.c
@@ -210,9 +210,10 @@ Bool Pl_Member_3(void)
     {
       Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(MEMBER_ALT, 0), 3);
 
+      DEREF(A(2), word, tag_mask); /* before the unification (which could bind the tail) */
+
       ok = Pl_Unify(A(0), A(1));
 
-      DEREF(A(2), word, tag_mask);
 #if 1
       if (tag_mask != TAG_REF_MASK && tag_mask != TAG_LST_MASK)
 	{
-- 
2.43.0


From d60c3f92bde28d1f2dab643efc142b55a8da5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/91] fix: sub_atom/5 with a known sub-atom and an out of
 range position read outside the atom

---
 src/BipsPl/atom_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/atom_c.c b/src/BipsPl/atom_c.c
index 7f53c1e..234c1c1 100644
--- a/src/BipsPl/atom_c.c
+++ b/src/BipsPl/atom_c.c
@@ -363,14 +363,14 @@ Pl_Sub_Atom_5(WamWord atom_word, WamWord before_word, WamWord length_word,
       if (mask & 4)		/* B fixed */
 	{
 	  a = length - b - l;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return a >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(a, after_word);
 	}
 
       if (mask & 1)		/* A fixed */
 	{
 	  b = length - l - a;
-	  return strncmp(patom->name + b, psub_atom->name, l) == 0 &&
+	  return b >= 0 && strncmp(patom->name + b, psub_atom->name, l) == 0 &&
 	    Pl_Get_Integer(b, before_word);
 	}
       mask = 8;			/* set sub_atom as fixed */
-- 
2.43.0


From 0ec9325116e1d59cbfd8059ea152e62f56abc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 15/91] fix: atoms containing \a were compiled with the letter
 a by the native compiler

---
 src/Wam2Ma/wam_parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Wam2Ma/wam_parser.c b/src/Wam2Ma/wam_parser.c
index 0b74ba5..2c1892c 100644
--- a/src/Wam2Ma/wam_parser.c
+++ b/src/Wam2Ma/wam_parser.c
@@ -644,8 +644,13 @@ Lexer(Bool complex_atom)
 
 	  if ((*p++ = *cur_line_p++) == '\\')
 	    {
-	      if (*cur_line_p == '\\' ||	/* \\ */
-		  strchr("abfnrtv", *cur_line_p))	/* \a \b \f \n \r \t \v */
+	      if (*cur_line_p == 'a')	/* \a is not known by all assemblers (e.g. gas) */
+		{
+		  cur_line_p++;
+		  p += sprintf(p, "007");
+		}
+	      else if (*cur_line_p == '\\' ||	/* \\ */
+		  strchr("bfnrtv", *cur_line_p))	/* \b \f \n \r \t \v */
 		*p++ = *cur_line_p++;
 	      else
 		{
-- 
2.43.0


From 7d8a0ad11e3202f003db60a1d015ef3d7b73c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 16/91] fix: atoms of 65536 characters or more had a truncated
 length (memory corruption in atom_chars, sub_atom, ...)

---
 src/EnginePl/atom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EnginePl/atom.h b/src/EnginePl/atom.h
index 9d8235c..22ffa44 100644
--- a/src/EnginePl/atom.h
+++ b/src/EnginePl/atom.h
@@ -96,7 +96,7 @@
 
 typedef struct			/* Atom properties                */
 {				/* ------------------------------ */
-  unsigned length:16;		/* its length (in characters)     */
+  int length;			/* its length (in characters)     */
   unsigned op_mask:4;		/* operator defined for the atom  */
   unsigned type:2;		/* IDENTIFIER GRAPHIC SOLO OTHER  */
   unsigned needs_quote:1;	/* needs ' around it ?            */
-- 
2.43.0


From 522542220748cd979c73f52853aa5fb382009ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 17/91] fix: new_atom/2 overflowed a fixed buffer when the
 prefix has about 1000 characters or more

---
 src/EnginePl/atom.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/EnginePl/atom.c b/src/EnginePl/atom.c
index 0808420..08304db 100644
--- a/src/EnginePl/atom.c
+++ b/src/EnginePl/atom.c
@@ -469,7 +469,7 @@ Pl_Gen_New_Atom(char *prefix)
 #define GEN_SYM_CHARS "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
 
   static char gen_sym_chars[] = GEN_SYM_CHARS;
-  static char gen_sym_buff[1024];
+  char *gen_sym_buff;
 
 #define Gen_Sym_Rand()  (gen_sym_rand_next = gen_sym_rand_next * 1103515245 + 12345, (gen_sym_rand_next / 65536 % 32768))
 
@@ -505,6 +505,7 @@ Pl_Gen_New_Atom(char *prefix)
   /* printf("GEN_SYM PREFIX : %s\n", prefix); */
 #endif
 
+  gen_sym_buff = Malloc(strlen(prefix) + 64); /* a few characters are appended to the prefix */
   strcpy(gen_sym_buff, prefix);
   str = gen_sym_buff + strlen(prefix);
 
@@ -568,6 +569,7 @@ Pl_Gen_New_Atom(char *prefix)
     }
 #endif
 
+  Free(gen_sym_buff);
 
   return atom;
 }
-- 
2.43.0


From a2001d7cbec0d9c89ad3303b1d65da9c69551fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 18/91] fix: a variable name longer than its buffer is a syntax
 error

---
 src/BipsPl/parser_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 646c79e..9b63e67 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -747,6 +747,9 @@ Lookup_In_Dico_Var(char *name)
       if (pl_parse_nb_var >= MAX_VAR_IN_TERM)
 	Parse_Error("too many variables in a term");
 
+      if (strlen(name) >= MAX_VAR_NAME_LENGTH)
+	Parse_Error("variable name too long");
+
       strcpy(pl_parse_dico_var[pl_parse_nb_var].name, name);
       pl_parse_dico_var[pl_parse_nb_var].word = NOT_A_WAM_WORD;
       pl_parse_dico_var[pl_parse_nb_var].named = named;
-- 
2.43.0


From 0f812d6e994489de5ef71631431a73ddd9895cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 19/91] fix: a bad escape after 0' does not end the clause
 being read

---
 src/BipsPl/lexer_supp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 540e338..5676d21 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -417,7 +417,8 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
 	{
 	  Unget_Last_Char;
 
-	  pl_token.type = TOKEN_FULL_STOP; /* to stop immediately Pl_Recover_After_Error */
+	  if (c == -3 || c == -4)
+	    pl_token.type = TOKEN_FULL_STOP; /* to stop immediately Pl_Recover_After_Error */
 	  pl_token.line = pstm->line_count + 1;
 	  pl_token.col = pstm->line_pos + 1;
 	  err_msg = "character expected here";
-- 
2.43.0


From 9bea307b5cfb164466f12f09c822951e97182b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 20/91] fix: bound the length of a token read

---
 src/BipsPl/lexer_supp.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 5676d21..0af94e5 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -87,6 +87,15 @@ static int Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 
 #define   Unget_Last_Char       Pl_Stream_Ungetc(c_orig, pstm)
 
+			/* add a char to the token (room is left for '\0') */
+#define   Add_Char(p, ch)						\
+  do									\
+    if ((p) < pl_token.name + LEXER_BIG_BUFFER - 1)			\
+      *(p)++ = (ch);							\
+    else if (err_msg == NULL)						\
+      err_msg = "token too long";					\
+  while (0)
+
 
 
 
@@ -190,7 +199,7 @@ start_scan:
       s = pl_token.name;
       do
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       while (c_type & (UL | CL | SL | DI));
@@ -247,10 +256,10 @@ start_scan:
 
       pl_token.type = TOKEN_NAME;
       s = pl_token.name;
-      *s++ = c0;
+      Add_Char(s, c0);
       while (c_type == GR)
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       *s = '\0';
@@ -353,7 +362,7 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
   p = pl_token.name;
   do
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
   while (c_type == DI);
@@ -437,7 +446,7 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
   Read_Next_Char(pstm, TRUE);
   while (strchr(f, c) != NULL)
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
   *p = '\0';
@@ -458,11 +467,11 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
  is_a_float:			/* float number */
 
   pl_token.type = TOKEN_FLOAT;
-  *p++ = '.';
+  Add_Char(p, '.');
   Read_Next_Char(pstm, TRUE);
   while (c_type == DI)
     {
-      *p++ = c;
+      Add_Char(p, c);
       Read_Next_Char(pstm, TRUE);
     }
 
@@ -478,13 +487,13 @@ Lexer_Number(StmInf *pstm, Bool integer_only)
 	  goto end_float;
 	}
 
-      *p++ = 'e';
-      *p++ = c;
+      Add_Char(p, 'e');
+      Add_Char(p, c);
 
       Read_Next_Char(pstm, TRUE);
       while (c_type == DI)
 	{
-	  *p++ = c;
+	  Add_Char(p, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
     }
@@ -565,7 +574,7 @@ Lexer_Quoted(StmInf *pstm)
 	}
 
       if (!error_found)
-	*s++ = c;
+	Add_Char(s, c);
     }
 
   /* error */
@@ -880,7 +889,7 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
       s = pl_token.name;
       do
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       while (c_type & (UL | CL | SL | DI));
@@ -911,7 +920,7 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
       s = pl_token.name;
       while (c_type == GR)
 	{
-	  *s++ = c;
+	  Add_Char(s, c);
 	  Read_Next_Char(pstm, TRUE);
 	}
       *s = '\0';
@@ -930,5 +939,5 @@ Pl_Lexer_Next_Atom(StmInf *pstm)
     }
 
   pl_token.type = TOKEN_NAME;
-  return NULL;
+  return err_msg;
 }
-- 
2.43.0


From 625a76baee017360f74e7690b992a39a29e57134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 21/91] fix: format rejects an unfinished or too long printf
 sequence

---
 src/BipsPl/format_c.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 9732806..44838bc 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -433,7 +433,12 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 
 	  /* quick/dirty parsing of C printf format (stop at first letter) */
 	  do
-	    if ((*p++ = fmt_char = *format++) == '*')
+	    if (p >= buff + sizeof(buff) - 8) /* keep room for the length modifier */
+	      {
+		*p = '\0';
+		goto c_printf_error;
+	      }
+	    else if ((*p++ = fmt_char = *format++) == '*')
 	      {
 		if (n == IMPOSS)
 		  n = Arg_Integer(&lst_adr);
@@ -444,7 +449,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  *p = '\0';
 	  format--;		/* sync for break */
 	  
-	  if (strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
+	  if (fmt_char == '\0' || strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL) /* do not include 'n' (dangerous) */
 	    {
 	    c_printf_error:
 	      CLEAN;
-- 
2.43.0


From c3a7017bdac3edc1593b61a1df14036e083a6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 22/91] fix: format paddings survive the growth of the pending
 text buffer

---
 src/BipsPl/format_c.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 44838bc..f0d5804 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -58,7 +58,7 @@
 #define MAX_PAD 1024		/* max consecutive ~t */
 
 typedef struct {
-  char *start_ptr;		/* ptr to buff of the stm_pad str stream */
+  PlLong start;			/* offset in buff of the stm_pad str stream */
   char fill_char;		/* char used to fill padding */
 }
 PadInf;
@@ -507,12 +507,12 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	   * (initially pstm_orig) to a string stream (str stream) stm_pad which is created 
 	   * at the first ~t and remains alive until the end of the function.
 	   * At each ~t a new entry is added entry to the pad[] array with 2 data: 
-	   * - the start_ptr in the str stream (where chars, after this ~t, are written)
+	   * - the start offset in the str stream (where chars, after this ~t, are written)
 	   * - the padding character.
 	   *
 	   * When ~| or ~+ is encountered, the pad[] array is flushed by emitting the padding,
-	   * followed by the substring associated with pad[i] (from its start ptr to the start 
-	   * ptr of pad[i+1]).
+	   * followed by the substring associated with pad[i] (from its start to the start 
+	   * of pad[i+1]).
 	   *
 	   * This flush also occurs in two other situations:
 	   * - at the end (when the format string is fully treated) in case some ~t are pending.
@@ -585,7 +585,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	      Pl_Err_Resource(Pl_Create_Atom("too many consecutive ~t in format"));
 	    }
 	      
-	  pad[nb_pad].start_ptr = Pl_Get_Ptr_Str_Stream(stm_pad);
+	  pad[nb_pad].start = Pl_Get_Ptr_Str_Stream(stm_pad) - Pl_Get_Buffer_Str_Stream(stm_pad);
 	  pad[nb_pad].fill_char = (char) n;
 	  nb_pad++;
 	  break;
@@ -641,7 +641,8 @@ Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[],
       while(--n >= 0)
 	Pl_Stream_Putc(pad[i].fill_char, pstm);
 
-      end = (i < nb_pad - 1) ? pad[i + 1].start_ptr : Pl_Get_Ptr_Str_Stream(stm_pad);
+      end = (i < nb_pad - 1) ? Pl_Get_Buffer_Str_Stream(stm_pad) + pad[i + 1].start
+	: Pl_Get_Ptr_Str_Stream(stm_pad);
       while(p < end)
 	Pl_Stream_Putc(*p++, pstm);
     }
-- 
2.43.0


From 3e9314a342d9fef3c8ff3600217e7aed2689559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 23/91] fix: format pads a new line to its column after a
 pending ~t

---
 src/BipsPl/format_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index f0d5804..3699575 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -531,6 +531,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0); 
 	      nb_pad = 0;
 	      tab_stop = 0;
+	      pstm = pstm_orig;
 	    }
 		
 	  /* curr_pos = nb chars written: on original pstm + on the str stream stm_pad */
-- 
2.43.0


From fe737d3b7e9e46db6c9caf442f2c879b16f00f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 24/91] fix: formatted output longer than the internal buffer

---
 src/BipsPl/stream_supp.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 9d062bf..413cea5 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1597,15 +1597,27 @@ int
 Pl_Stream_Printf(StmInf *pstm, char *format, ...)
 {
   va_list arg_ptr;
-  static char str[BIG_BUFFER];
+  static char buff[BIG_BUFFER];
+  char *str = buff;
   char *p;
-  int c;
+  int c, lg;
 
 
   va_start(arg_ptr, format);
-  vsprintf(str, format, arg_ptr);
+  lg = vsnprintf(buff, sizeof(buff), format, arg_ptr);
   va_end(arg_ptr);
 
+  if (lg < 0)			/* not printable (e.g. too long) */
+    return lg;
+
+  if (lg >= (int) sizeof(buff))	/* too long for the static buffer */
+    {
+      str = Malloc((size_t) lg + 1);
+      va_start(arg_ptr, format);
+      vsnprintf(str, (size_t) lg + 1, format, arg_ptr);
+      va_end(arg_ptr);
+    }
+
   for (p = str; *p; p++)
     {
       c = *p;
@@ -1613,7 +1625,12 @@ Pl_Stream_Printf(StmInf *pstm, char *format, ...)
       Update_Counters(pstm, c);
     }
 
-  return (int) (p - str);
+  lg = (int) (p - str);
+
+  if (str != buff)
+    Free(str);
+
+  return lg;
 }
 
 
-- 
2.43.0


From 323669003731fda4361cdf590d69a9ebbaeb9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 25/91] fix: format ~N after a pending ~t goes to a new line
 when needed

---
 src/BipsPl/format_c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index 3699575..d66e821 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -410,7 +410,10 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	  break;
 
 	case 'N': /* NB: the 'n' is ignored since after the the first \n we are at the begin of line */
-	  if (pstm->line_pos > 0)
+	  curr_pos = pstm->line_pos;
+	  if (nb_pad > 0 && pstm->line_count == 0) /* still on the line of pstm_orig */
+	    curr_pos += pstm_orig->line_pos;
+	  if (curr_pos > 0)
 	    Pl_Stream_Putc('\n', pstm);
 	  break;
 
-- 
2.43.0


From 8f881dfc4c725e4dc0b09edd85772057ee48161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 26/91] fix: reading arguments of a compound term uses little C
 stack

---
 src/BipsPl/parser_supp.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 9b63e67..1baf98e 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -80,6 +80,11 @@ static char unget_tok_buffer[LEXER_BIG_BUFFER];
 static TokInf unget_tok = { .name = unget_tok_buffer };
 
 
+				/* args of the compound terms being read */
+static WamWord *pending_arg = NULL;
+static int nb_pending_arg = 0;
+static int max_pending_arg = 0;
+
 static sigjmp_buf jumper;
 
 #if NB_OF_USED_MACHINE_REGS > 0
@@ -245,6 +250,7 @@ Pl_Read_Term(StmInf *pstm, int parse_end_of_term)
   pstm_i = pstm;
 
   tok_present = FALSE;
+  nb_pending_arg = 0;
   Save_Machine_Regs(buff_save_machine_regs);
 
   jmp_val = sigsetjmp(jumper, 1);
@@ -558,7 +564,8 @@ Parse_Term(int cur_prec, int context, Bool comma_is_punct)
 static WamWord
 Parse_Args_Of_Functor(int atom)
 {
-  WamWord w[NB_OF_X_REGS];
+  int base = nb_pending_arg;
+  WamWord word;
   int i;
 
   Read_Next_Token(COMMA_ANY);	/* the immediate ( */
@@ -569,10 +576,19 @@ Parse_Args_Of_Functor(int atom)
       if (i >= MAX_ARITY)
 	Parse_Error("too big compound term (exceeds max_arity)");
 
-      w[i] = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);
+      word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);
 
-      if (w[i++] == NOT_A_WAM_WORD)
+      if (word == NOT_A_WAM_WORD)
 	Parse_Error("expression expected");
+
+      if (nb_pending_arg >= max_pending_arg)
+	{
+	  max_pending_arg = max_pending_arg * 2 + 256;
+	  pending_arg = (WamWord *) Realloc(pending_arg, max_pending_arg * sizeof(WamWord));
+	}
+      pending_arg[nb_pending_arg++] = word;
+      i++;
+
       Read_Next_Token(TRUE);
     }
   while (pl_token.type == TOKEN_PUNCTUATION && pl_token.punct == ',');
@@ -580,7 +596,8 @@ Parse_Args_Of_Functor(int atom)
   if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ')')
     Parse_Error(", or ) expected");
 
-  return Create_Structure(atom, i, w);
+  nb_pending_arg = base;
+  return Create_Structure(atom, i, pending_arg + base);
 }
 
 
-- 
2.43.0


From 40d69c13db82e70688f11c8a07864b226a61f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 27/91] fix: reading a long list uses no C stack per element

---
 src/BipsPl/parser_supp.c | 65 ++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index 1baf98e..b1b4010 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -654,53 +654,60 @@ Parse_Bracketed_Term(void)
 static WamWord
 Parse_List(Bool can_be_empty)
 {
-  WamWord term;
-  WamWord car_word, cdr_word = 0; /* init for the compiler */
+  WamWord term = NOT_A_WAM_WORD;
+  WamWord car_word, cdr_word;
+  WamWord *cdr_adr = NULL;
 
 
-  car_word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);
+  for (;;)			/* an iteration per element (long lists) */
+    {
+      car_word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);
 
-  Read_Next_Token(TRUE);
+      Read_Next_Token(TRUE);
 
-  if (car_word == NOT_A_WAM_WORD)
-    {
-      if (!can_be_empty)
-	Parse_Error("expression expected in list");
-      else if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ']')
-	Parse_Error("expression or ] expected in list");
+      if (car_word == NOT_A_WAM_WORD)
+	{
+	  if (!can_be_empty)
+	    Parse_Error("expression expected in list");
+	  else if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ']')
+	    Parse_Error("expression or ] expected in list");
 
-      return NOT_A_WAM_WORD;
-    }
+	  return NOT_A_WAM_WORD;
+	}
 
 
-  if (pl_token.type != TOKEN_PUNCTUATION || !strchr(",|]", pl_token.punct))
-    Parse_Error(", | ] or operator expected in list");
+      if (pl_token.type != TOKEN_PUNCTUATION || !strchr(",|]", pl_token.punct))
+	Parse_Error(", | ] or operator expected in list");
 
-  switch (pl_token.punct)
-    {
-    case ',':			/* [X,Y...] */
-      cdr_word = Parse_List(FALSE);
-      break;
+      cdr_word = Pl_Put_List();
+      Pl_Unify_Value(car_word);
+      Pl_Unify_Value(NIL_WORD);	/* provisional tail */
 
-    case '|':			/* [X|Y] */
+      if (cdr_adr == NULL)
+	term = cdr_word;
+      else
+	*cdr_adr = cdr_word;
+      cdr_adr = &Cdr(UnTag_LST(cdr_word));
+
+      if (pl_token.punct != ',')
+	break;
+
+      can_be_empty = FALSE;	/* [X,Y...] */
+    }
+
+  if (pl_token.punct == '|')	/* [X|Y] */
+    {
       cdr_word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, COMMA_ANY);
       if (cdr_word == NOT_A_WAM_WORD)
 	Parse_Error("expression expected in list");
 
+      *cdr_adr = cdr_word;
+
       Read_Next_Token(TRUE);
       if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ']')
 	Parse_Error("] or operator expected in list");
-      break;
-
-    case ']':			/* [X] */
-      cdr_word = NIL_WORD;	/* faster than Pl_Put_Nil() */
-      break;
     }
 
-  term = Pl_Put_List();
-  Pl_Unify_Value(car_word);
-  Pl_Unify_Value(cdr_word);
-
   return term;
 }
 
-- 
2.43.0


From f03cc0f6d6073b8f97fc1a8a7873ed5c481c40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 28/91] fix: reading a too deeply nested term is a syntax error

---
 src/BipsPl/parser_supp.c | 54 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/BipsPl/parser_supp.c b/src/BipsPl/parser_supp.c
index b1b4010..e0cdaa1 100644
--- a/src/BipsPl/parser_supp.c
+++ b/src/BipsPl/parser_supp.c
@@ -45,6 +45,10 @@
 
 #define PARSER_SUPP_FILE
 
+#ifndef _WIN32
+#include <sys/resource.h>
+#endif
+
 #include "engine_pl.h"
 #include "bips_pl.h"
 
@@ -85,6 +89,9 @@ static WamWord *pending_arg = NULL;
 static int nb_pending_arg = 0;
 static int max_pending_arg = 0;
 
+static char *start_c_stack;	/* to limit the recursion depth */
+static size_t c_stack_quota;
+
 static sigjmp_buf jumper;
 
 #if NB_OF_USED_MACHINE_REGS > 0
@@ -190,6 +197,47 @@ PL_INITIALIZER(Parser_Supp_Initializer)
 
 
 
+/*-------------------------------------------------------------------------*
+ * C_STACK_ADDRESS                                                         *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static char *
+C_Stack_Address(void)
+{
+#ifdef __GNUC__
+  return (char *) __builtin_frame_address(0);
+#else
+  char here;
+  char *volatile p = &here;
+  return p;
+#endif
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * C_STACK_QUOTA                                                           *
+ *                                                                         *
+ * Amount of C stack the parser can use (it is recursive).                 *
+ *-------------------------------------------------------------------------*/
+static size_t
+C_Stack_Quota(void)
+{
+  size_t size = 1024 * 1024;	/* C stack size when unknown */
+#ifndef _WIN32
+  struct rlimit rlim;
+
+  if (getrlimit(RLIMIT_STACK, &rlim) == 0)
+    size = (rlim.rlim_cur == RLIM_INFINITY || rlim.rlim_cur > (64 << 20)) ?
+      (64 << 20) : (size_t) rlim.rlim_cur;
+#endif
+  return size - size / 4;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * READ_NEXT_TOKEN                                                         *
  *                                                                         *
@@ -251,6 +299,8 @@ Pl_Read_Term(StmInf *pstm, int parse_end_of_term)
 
   tok_present = FALSE;
   nb_pending_arg = 0;
+  start_c_stack = C_Stack_Address();
+  c_stack_quota = C_Stack_Quota();
   Save_Machine_Regs(buff_save_machine_regs);
 
   jmp_val = sigsetjmp(jumper, 1);
@@ -343,6 +393,10 @@ Parse_Term(int cur_prec, int context, Bool comma_is_punct)
   Bool left_is_op = FALSE;
 
 
+  /* NB: the C stack grows downward */
+  if ((size_t) (start_c_stack - C_Stack_Address()) > c_stack_quota)
+    Parse_Error("too deeply nested term");
+
   Read_Next_Token(context != TRYING_PREFIX || comma_is_punct);
   if (pl_last_read_line == -1)
     Update_Last_Read_Position;
-- 
2.43.0


From 9f55c30bacf20bbad7d232d0ebbc4a791e95445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 29/91] fix: stream position after a peek at end of file

---
 src/BipsPl/stream_supp.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 413cea5..ccb98ef 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1693,6 +1693,33 @@ Pl_Stream_End_Of_Stream(StmInf *pstm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * NB_PUSHED_BACK                                                          *
+ *                                                                         *
+ * Number of pushed back characters (a peeked EOF is not a character).     *
+ *-------------------------------------------------------------------------*/
+static int
+Nb_Pushed_Back(StmInf *pstm)
+{
+  PbStk pb = pstm->pb_char;
+  PlLong c;
+  int nb = 0;
+
+  pb.ptr = pb.buff + (pstm->pb_char.ptr - pstm->pb_char.buff);
+
+  while (!PB_Is_Empty(pb))
+    {
+      PB_Pop(pb, c);
+      if (c != EOF)
+	nb++;
+    }
+
+  return nb;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_STREAM_GET_POSITION                                                  *
  *                                                                         *
@@ -1708,7 +1735,7 @@ Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 	*offset = 0;
       else
 	{
-	  *offset = *offset - pstm->pb_char.nb_elems;
+	  *offset = *offset - Nb_Pushed_Back(pstm);
 	  if (*offset < 0)
 	    *offset = 0;
 	}
-- 
2.43.0


From 6b5616b72d46015b367a8e8a2129a71e20e8cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 30/91] fix: reading the end of file does not move the line
 position

---
 src/BipsPl/stream_supp.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index ccb98ef..5efb87c 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1255,14 +1255,16 @@ TTY_Clearerr(void *unused)
 
 #define Update_Counters(pstm, c)		\
   if (c != EOF)                   		\
-    pstm->char_count++;       			\
-  if (c == '\n')              			\
-    {                      			\
-      pstm->line_count++;   			\
-      pstm->line_pos = 0;     			\
-    }                      			\
-  else                     			\
-    pstm->line_pos++
+    {						\
+      pstm->char_count++;      			\
+      if (c == '\n')             		\
+	{                      			\
+	  pstm->line_count++;  			\
+	  pstm->line_pos = 0;  			\
+	}                      			\
+      else                     			\
+	pstm->line_pos++;			\
+    }
 
 
 
@@ -1439,6 +1441,9 @@ Pl_Stream_Ungetc(int c, StmInf *pstm)
   PB_Push(pstm->pb_char, c);
   pstm->eof_reached = FALSE;
 
+  if (c == EOF)			/* not counted when read */
+    return;
+
   if (pstm->char_count > 0)	/* test should be useless */
     pstm->char_count--;
 
-- 
2.43.0


From 910074369014ede16725848e368730cbc02f614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 31/91] fix: seek/4 relative to the current position ignores
 peeked bytes

---
 src/BipsPl/stream_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 560224f..15019ae 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1262,10 +1262,18 @@ Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word,
   offset = Pl_Rd_Integer_Check(offset_word);
   Pl_Check_For_Un_Integer(new_loc_word);
 
+  if (whence == SEEK_CUR)	/* wrt to the position seen by the user (not the pushed back bytes) */
+    {
+      Pl_Stream_Get_Position(pstm, p, p + 1, p + 2, p + 3);
+      offset += p[0];
+      whence = SEEK_SET;
+    }
+
   if (Pl_Stream_Set_Position(pstm, whence, offset, offset, 0, 0) != 0)
     return FALSE;
 
   Pl_Stream_Get_Position(pstm, &offset, p + 1, p + 2, p + 3);
+  pstm->char_count = offset;
 
   return Pl_Get_Integer(offset, new_loc_word);
 }
-- 
2.43.0


From fdfcece2e54bff0a496173e697a31c6ef06a7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 32/91] fix: circular stream mirrors do not loop

---
 src/BipsPl/stream_supp.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 5efb87c..d474824 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -629,6 +629,29 @@ Del_Aliases_Of_Stream(int stm)
 
 
 
+/*-------------------------------------------------------------------------*
+ * IS_MIRRORED_ON                                                          *
+ *                                                                         *
+ * Is stm the same stream as m_stm or (even indirectly) mirrored on it ?   *
+ *-------------------------------------------------------------------------*/
+static Bool
+Is_Mirrored_On(int stm, int m_stm)
+{
+  StmLst *m;
+
+  if (stm == m_stm)
+    return TRUE;
+
+  for(m = pl_stm_tbl[stm]->mirror; m ; m = m->next)
+    if (Is_Mirrored_On(m->stm, m_stm))
+      return TRUE;
+
+  return FALSE;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_ADD_MIRROR_TO_STREAM                                                 *
  *                                                                         *
@@ -640,7 +663,7 @@ Pl_Add_Mirror_To_Stream(int stm, int m_stm)
   StmInf *m_pstm = pl_stm_tbl[m_stm];
   StmLst *m;
 
-  if (stm == m_stm)
+  if (Is_Mirrored_On(m_stm, stm)) /* same stream or would loop */
     return;
 
   for(m = pstm->mirror; m ; m = m->next)
-- 
2.43.0


From 342c9b4a463822eae551ce6caade421092698f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 33/91] fix: retract by an active scan of an erased procedure

---
 src/BipsPl/dynam_supp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d5412f1..88bf33a 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -709,6 +709,9 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
   MPROBE_PTR("dyn", dyn);
 
+  if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
+    return;		 /* all clauses already erased (by Erase_All) */
+
 #if DEBUG_LEVEL >= 1
   Print_Dynamic_Clause("Delete clause", clause);
 #endif
-- 
2.43.0


From 60aeb0adb432b9f60d0aa06494c2e27682c6939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 34/91] fix: erased clauses of a procedure in use at a clause
 GC were never freed afterwards

---
 src/BipsPl/dynam_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index 88bf33a..428ddb5 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -1334,7 +1334,7 @@ GC_Clause(void)
 		 pl_atom_tbl[clause->dyn->func].name, clause->dyn->arity);
 	}
 #endif
-      if (clause)
+      if (clause && clause->dyn->first_erased_cl) /* idem */
 	MARK_AS_KEEP(clause->dyn);
 
       if (e_top == e)
-- 
2.43.0


From 5aa638e9bbbac2f4c0b18a27ef1b9dbe72ebe531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 35/91] fix: reloading a multifile procedure used freed clauses

---
 src/BipsPl/dynam_supp.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index 428ddb5..63ab9e6 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -150,6 +150,8 @@ static void Free_Clause(DynCInf *clause);
 
 static void Unlink_And_Free_Clause(DynCInf *clause);
 
+static void Erase_Clause(DynCInf *clause);
+
 static void Erase_All(DynPInf *dyn);
 
 static void Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file);
@@ -683,12 +685,12 @@ Unlink_And_Free_Clause(DynCInf *clause)
 
 
 /*-------------------------------------------------------------------------*
- * PL_DELETE_DYNAMIC_CLAUSE                                                *
+ * ERASE_CLAUSE                                                            *
  *                                                                         *
- * This comes down to erase the clause, ie. set it to current erase stamp  *
+ * Set the clause to current erase stamp (no clause is freed here).        *
  *-------------------------------------------------------------------------*/
-void
-Pl_Delete_Dynamic_Clause(DynCInf *clause)
+static void
+Erase_Clause(DynCInf *clause)
 {
   DynPInf *dyn;
 
@@ -737,8 +739,6 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
       clause->p_ind_hdr->first_for_scan = clause->ind_chain.next;
 #endif
 
-  GC_Clause();
-
 #if DEBUG_LEVEL >= 5
   Print_Dynamic_Info(dyn, __func__, FALSE);
 #endif
@@ -747,6 +747,21 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PL_DELETE_DYNAMIC_CLAUSE                                                *
+ *                                                                         *
+ * This comes down to erase the clause, ie. set it to current erase stamp  *
+ *-------------------------------------------------------------------------*/
+void
+Pl_Delete_Dynamic_Clause(DynCInf *clause)
+{
+  Erase_Clause(clause);
+  GC_Clause();
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * ERASE_ALL_CLAUSES_OF_FILE                                               *
  *                                                                         *
@@ -768,7 +783,7 @@ Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file)
       MPROBE_PTR("clause", clause);
 
       if (clause->pl_file == pl_file)
-	Pl_Delete_Dynamic_Clause(clause);
+	Erase_Clause(clause);	/* no GC here (would free clause) */
     }
 
   GC_Clause();
-- 
2.43.0


From 27a531b9a91b3fe3bef53a4ef1467f1f02a28dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 36/91] fix: setof with an instantiated result and no free
 variable

---
 src/BipsPl/all_solut.pl  |  9 +++++----
 src/BipsPl/all_solut.wam | 25 ++++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index c4eff85..cad9104 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -90,12 +90,13 @@ bagof(Template, Generator, Instances) :-
 
 '$bagof'(Template, _, Instances, BipFunc, BipArity) :-
 	'$call_c'('Pl_Recover_Generator_1'(Generator)),
-	'$findall'(Template, Generator, Instances, [], BipFunc, BipArity),
-	Instances \== [],
+	'$findall'(Template, Generator, AllInstances, [], BipFunc, BipArity),
+	AllInstances \== [],
 	(   BipFunc = bagof ->
 	    true
-	;   sort(Instances)
-	).
+	;   sort(AllInstances)
+	),
+	Instances = AllInstances.
 
 
 
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index 8773350..7b4df5a 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 2ab1d40733846884f8d7d98598c567d6f4509e52  all_solut.pl
+% hash: 2c111620b17e5ad8b91e08f78b9c7f959c9d4557  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -130,23 +130,26 @@ predicate('$bagof'/5,80,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    allocate(2),
+    allocate(3),
     get_variable(y(0),2),
     get_variable(y(1),3),
     put_variable(x(1),2),
     call_c('Pl_Recover_Generator_1',[],[x(2)]),
     put_value(x(4),5),
-    put_value(y(0),2),
+    put_variable(y(2),2),
     put_nil(3),
     put_value(y(1),4),
     call('$findall'/6),
-    put_value(y(0),0),
+    put_value(y(2),0),
     put_nil(1),
     call_c('Pl_Blt_Term_Neq',[fast_call,boolean],[x(0),x(1)]),
     put_value(y(1),0),
-    put_value(y(0),1),
+    put_value(y(2),1),
+    call('$$bagof/5_$aux2'/2),
+    put_value(y(0),0),
+    get_value(y(2),0),
     deallocate,
-    execute('$$bagof/5_$aux2'/2)]).
+    proceed]).
 
 
 predicate('$$bagof/5_$aux2'/2,91,static,private,monofile,local,[
@@ -178,7 +181,7 @@ label(1),
     execute(sort/1)]).
 
 
-predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
+predicate('$store_solutions'/5,104,static,private,monofile,built_in,[
     get_variable(x(5),4),
     get_variable(x(6),3),
     get_variable(x(4),2),
@@ -190,7 +193,7 @@ predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
     execute('$$store_solutions/5_$aux1'/5)]).
 
 
-predicate('$$store_solutions/5_$aux1'/5,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/5,104,static,private,monofile,local,[
     try_me_else(1),
     allocate(2),
     get_variable(y(0),3),
@@ -207,17 +210,17 @@ label(1),
     proceed]).
 
 
-predicate('$group_solutions'/3,114,static,private,monofile,built_in,[
+predicate('$group_solutions'/3,115,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate('$group_solutions_alt'/0,117,static,private,monofile,built_in,[
+predicate('$group_solutions_alt'/0,118,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate('$check_list_arg'/3,125,static,private,monofile,built_in,[
+predicate('$check_list_arg'/3,126,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_2',[],[x(1),x(2)]),
     execute('$check_list_or_partial_list'/1)]).
 
-- 
2.43.0


From 64762c5962684fb577b01b2ad24a08fb7b5991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 37/91] fix: g_assign/2 with an argument selector on a linked
 term modified the term or crashed

G_Assign_Arg handled the value of a link as the address of a copy and
wrote into the (immutable) linked term.
---
 src/BipsPl/g_var_inl_c.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 90c40c2..225ca5f 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -529,6 +529,12 @@ G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
     {
       if (backtrack)
 	Pl_Err_Domain(pl_domain_g_argument_selector, gvar_word);
+      if (g_elem->size == 0)	/* a link: never modify the linked term */
+	{
+	  G_Assign_Element(g_elem, g_elem->val, FALSE, TRUE);
+	  gt = Get_Target_From_Gvar(gvar_word);
+	  g_arg = gt->g_arg;
+	}
       G_Assign_Arg(g_elem, g_arg, gval_word);
     }
   else
-- 
2.43.0


From 30a30e1996791df6d5b193a55c1c21c1eada32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 38/91] fix: g_assign/2 on a variable argument bound its other
 occurrences

With g_assign(v, f(X,X)), g_assign(v-1, b) the second argument (which
refers to the cell of the first one) became b too.
---
 src/BipsPl/g_var_inl_c.c | 58 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 225ca5f..1c50d36 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -122,6 +122,8 @@ static void G_Assign_Element(GVarElt *g_elem, WamWord gval_word,
 
 static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 
+static void G_Move_Var(WamWord *adr, WamWord *from, WamWord **to);
+
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 			   Bool backtrack, Bool copy);
 
@@ -629,6 +631,12 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
   PlLong size;
   GUndo *u;
 
+  if (*g_arg == Make_Self_Ref(g_arg)) /* keep the other occurrences unbound */
+    {
+      adr = NULL;
+      G_Move_Var((WamWord *) g_elem->val, g_arg, &adr);
+    }
+
   if (Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
     {
       Pl_Copy_Term(g_arg, &word);
@@ -660,6 +668,56 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_MOVE_VAR                                                              *
+ *                                                                         *
+ * In the copied term at adr, from is the address of an unbound variable.  *
+ * Make the other occurrences of this variable no longer refer to from (the*
+ * first one becomes the variable, its address is stored in *to).          *
+ *-------------------------------------------------------------------------*/
+static void
+G_Move_Var(WamWord *adr, WamWord *from, WamWord **to)
+{
+  WamWord word, tag_mask;
+  WamWord *arg_adr;
+  int i;
+
+ terminal_rec:
+  word = *adr;
+  tag_mask = Tag_Mask_Of(word);
+
+  if (tag_mask == TAG_REF_MASK)
+    {
+      if (adr != from && UnTag_REF(word) == from)
+	{
+	  if (*to == NULL)
+	    *to = adr;
+	  *adr = Make_Self_Ref(*to);
+	}
+      return;
+    }
+
+  if (tag_mask == TAG_LST_MASK)
+    {
+      arg_adr = UnTag_LST(word);
+      G_Move_Var(&Car(arg_adr), from, to);
+      adr = &Cdr(arg_adr);
+      goto terminal_rec;
+    }
+
+  if (tag_mask == TAG_STC_MASK)
+    {
+      arg_adr = UnTag_STC(word);
+      i = Arity(arg_adr) - 1;
+      for (adr = &Arg(arg_adr, 0); i > 0; i--)
+	G_Move_Var(adr++, from, to);
+      goto terminal_rec;
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ASSIGN_ARRAY                                                          *
  *                                                                         *
-- 
2.43.0


From b8b7388610deacc42437d1a3e2a0eac08fecaa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 39/91] fix: an erroneous nested array left an array with
 uninitialized elements

g_assign(t, g_array([1,g_array(0),3])) raised its error in the middle of
the initialization. Check the whole description before any change.
---
 src/BipsPl/g_var_inl_c.c | 63 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 1c50d36..4fbdc08 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -127,6 +127,8 @@ static void G_Move_Var(WamWord *adr, WamWord *from, WamWord **to);
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 			   Bool backtrack, Bool copy);
 
+static void G_Check_Array(WamWord start_word, PlLong skip);
+
 static GVarElt *G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack);
 
 static GTarget *Get_Target_From_Gvar(WamWord gvar_word);
@@ -580,7 +582,8 @@ G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
     array_op = G_ARRAY_EXTEND;
   else goto not_an_array;
 
-				/* an array */
+				/* an array: check it before any change */
+  G_Check_Array(word, (array_op == G_ARRAY_EXTEND) ? -save_size : 0);
   G_Assign_Array(g_elem, adr, array_op, backtrack, copy);
   goto finish;
 
@@ -739,10 +742,6 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   DEREF(Arg(stc_adr, 0), word, tag_mask);
   new_size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);
 
-  if (!(new_size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
-			 (tag_mask == TAG_LST_MASK && arity == 1))))
-    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
-
   if (tag_mask == TAG_INT_MASK)
     {
       same_init_value = TRUE;
@@ -812,6 +811,60 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_CHECK_ARRAY                                                           *
+ *                                                                         *
+ * If start_word is an array description, check it (recursively) else raise*
+ * an error. The first skip elements of a list are ignored (extension).    *
+ *-------------------------------------------------------------------------*/
+static void
+G_Check_Array(WamWord start_word, PlLong skip)
+{
+  WamWord word, tag_mask;
+  WamWord word1;
+  WamWord *adr, *lst_adr;
+  int atom, arity;
+  PlLong size;
+
+  DEREF(start_word, word, tag_mask);
+
+  if (tag_mask != TAG_STC_MASK)
+    return;
+
+  adr = UnTag_STC(word);
+  atom = Functor(adr);
+  arity = Arity(adr);
+
+  if (atom != atom_g_array && atom != atom_g_array_auto &&
+      atom != atom_g_array_extend)
+    return;
+
+  DEREF(Arg(adr, 0), word1, tag_mask);
+  size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word1) : UnTag_INT(word1);
+
+  if (!(size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
+		     (tag_mask == TAG_LST_MASK && arity == 1))))
+    Pl_Err_Domain(pl_domain_g_array_index, word);
+
+  if (tag_mask == TAG_INT_MASK)
+    {
+      if (arity == 2 && size > skip)
+	G_Check_Array(Arg(adr, 1), 0);
+      return;
+    }
+
+  while (tag_mask == TAG_LST_MASK)
+    {
+      lst_adr = UnTag_LST(word1);
+      if (--skip < 0)
+	G_Check_Array(Car(lst_adr), 0);
+      DEREF(Cdr(lst_adr), word1, tag_mask);
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ALLOC_ARRAY                                                           *
  *                                                                         *
-- 
2.43.0


From 7fb0f18b52a2e7adae4356354aa74d3627c43e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 40/91] fix: g_array_extend with a smaller size overran the
 array, and was undone by backtracking

G_Alloc_Array reallocated the array to the smaller size and then accessed
its old elements. A g_assign/2 extension was also undone when the array
resulted from a backtrackable assignment.
---
 src/BipsPl/g_var_inl_c.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 4fbdc08..c2fd06d 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -736,6 +736,7 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   WamWord lst_word = 0;		/* init for the compiler */
   PlLong new_size, size, i;
   GVarElt *p;
+  GUndo *u;
 
   arity = Arity(stc_adr);
 
@@ -764,11 +765,24 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 
   size = -g_elem->size;
 
+  if (array_op == G_ARRAY_EXTEND)
+    {
+      if (new_size < size)	/* never shrink: nothing to add */
+	new_size = size;
+
+      if (!backtrack)		/* this assignment cannot be undone */
+	{
+	  for(u = g_elem->undo; u; u = u->next)
+	    u->g_elem = NULL;	/* invalidate this entry */
+	  g_elem->undo = NULL;
+	}
+    }
+
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
   if (array_op == G_ARRAY_EXTEND)
     {
-      if (!same_init_value)
+      if (!same_init_value && size < new_size)
 	for(i = 0; i < size; i++) /* skip size 1st elems of list */
 	  {
 	    Pl_Get_List(lst_word);
-- 
2.43.0


From c03fb304a21181cdeb256a544b12e990344ef020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 41/91] fix: g_inc/g_dec silently wrapped around at the integer
 bounds

---
 src/BipsPl/g_var_inl_c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index c2fd06d..231c0aa 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1459,6 +1459,9 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
   old = UnTag_INT(*adr);
   new = old + inc;
 
+  if (new > INT_GREATEST_VALUE || new < INT_LOWEST_VALUE)
+    Pl_Err_Evaluation(pl_evaluation_int_overflow);
+
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
     return FALSE;
 
-- 
2.43.0


From d660bd11437fb45cd4056d2a45ec1429258100a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 42/91] fix: the allocation size of a huge g_array overflowed

---
 src/BipsPl/g_var_inl_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 231c0aa..d282d22 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -57,6 +57,7 @@
 
 #define G_IMPOSSIBLE_SIZE          ((unsigned int) -1 >> 1)
 #define MAX_AUTO_SIZE              (1 << 20)
+#define MAX_ARRAY_SIZE             ((PlLong) ((size_t) -1 / 2 / sizeof(GVarElt)) - 1)
 
 
 
@@ -860,6 +861,9 @@ G_Check_Array(WamWord start_word, PlLong skip)
 		     (tag_mask == TAG_LST_MASK && arity == 1))))
     Pl_Err_Domain(pl_domain_g_array_index, word);
 
+  if (size > MAX_ARRAY_SIZE)
+    Pl_Err_Resource(pl_resource_finite_memory);
+
   if (tag_mask == TAG_INT_MASK)
     {
       if (arity == 2 && size > skip)
-- 
2.43.0


From e48ad7fa7821c347fa22266c14d5b7e5be9d7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 43/91] fix: g_inc and indirect indexes on a link to a bound
 variable, and in place change of a linked term

A link to a variable later bound to an integer was rejected
(type_error(integer,3)), and g_inc(v-1), g_set_bit(v-1,..) on a linked
term changed the (immutable) term itself.
---
 src/BipsPl/g_var_inl_c.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index d282d22..35eddf6 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -138,7 +138,7 @@ static GTarget *Get_Target_From_Selector(WamWord *stc_adr);
 
 static WamWord *Get_Term_Addr_From_Target(GTarget *gt);
 
-static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word);
+static WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word, Bool modify);
 
 static PlLong Get_Int_From_Gvar(WamWord gvar_word);
 
@@ -1006,7 +1006,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word);
+	word = *Get_Int_Addr_From_Gvar(word, FALSE);
 
       index = UnTag_INT(word);
 
@@ -1133,21 +1133,37 @@ Get_Term_Addr_From_Target(GTarget *gt)
  *                                                                         *
  *-------------------------------------------------------------------------*/
 static WamWord *
-Get_Int_Addr_From_Gvar(WamWord gvar_word)
+Get_Int_Addr_From_Gvar(WamWord gvar_word, Bool modify)
 {
   GTarget save_g_target = g_target; /* save for cross-recursion */
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
   WamWord *adr = Get_Term_Addr_From_Target(gt);
-
-  g_target = save_g_target;
-				/* should be dereferenced */
+  WamWord *link_adr = NULL;
 
   if (adr == NULL)		/* an array */
     Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
 
+  if (gt->g_elem->size == 0)	/* a link: to be dereferenced */
+    {
+      link_adr = &gt->g_elem->val;
+      while (Tag_Mask_Of(*adr) == TAG_REF_MASK && UnTag_REF(*adr) != adr)
+	adr = UnTag_REF(*adr);
+    }
+
   if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
      Pl_Err_Type(pl_type_integer, *adr);
 
+  if (modify && link_adr && adr != link_adr) /* never modify the linked term */
+    {
+      if (gt->g_arg == NULL)
+	*link_adr = *adr;
+      else
+	G_Assign_Element(gt->g_elem, gt->g_elem->val, FALSE, TRUE);
+      adr = Get_Term_Addr_From_Target(Get_Target_From_Gvar(gvar_word));
+    }
+
+  g_target = save_g_target;
+
   return adr;
 }
 
@@ -1161,7 +1177,7 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
 static PlLong
 Get_Int_From_Gvar(WamWord gvar_word)
 {
-  return *Get_Int_Addr_From_Gvar(gvar_word);
+  return *Get_Int_Addr_From_Gvar(gvar_word, FALSE);
 }
 
 
@@ -1179,7 +1195,7 @@ Get_Int_From_Word(WamWord start_word)
   DEREF(start_word, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-    word = *Get_Int_Addr_From_Gvar(word);
+    word = *Get_Int_Addr_From_Gvar(word, FALSE);
 
   return UnTag_INT(word);
 }
@@ -1458,7 +1474,7 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
     Pl_Check_For_Un_Integer(new_word);
 
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
 
   old = UnTag_INT(*adr);
   new = old + inc;
@@ -1491,7 +1507,7 @@ G_Set_Bit(WamWord gvar_word, WamWord bit_word)
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
   *adr |= mask;
 }
@@ -1510,7 +1526,7 @@ G_Reset_Bit(WamWord gvar_word, WamWord bit_word)
   int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
   PlULong mask;
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
   mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
   *adr &= ~mask;
 }
-- 
2.43.0


From d1ecc6eb9830e67acf33e33484d673703386273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 44/91] fix: g_read/2 of a sub-term of a link returned a copy
 instead of the original sub-term

---
 src/BipsPl/g_var_inl_c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 35eddf6..b0aa84a 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1373,6 +1373,9 @@ G_Read(WamWord gvar_word, WamWord gval_word)
 
   if (g_arg != NULL)
     {
+      if (g_elem->size == 0)	/* a link: the original sub-term */
+	return Pl_Unify(*g_arg, gval_word);
+
       Pl_Copy_Term(H, g_arg);
       word = *H;
       H += Pl_Term_Size(word);
-- 
2.43.0


From 79418def7cf956892dbc2f1765ce8f67a738e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 45/91] fix: g_assignb/g_link of an array over a larger array
 overran the new array

The old elements were copied as for an extension.
---
 src/BipsPl/g_var_inl_c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index b0aa84a..73b8eb6 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -758,9 +758,10 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
     array_op = G_ARRAY;
 
-  if (array_op != G_ARRAY_EXTEND && !backtrack)
+  if (array_op != G_ARRAY_EXTEND)
     {
-      G_Free_Element(g_elem, TRUE);
+      if (!backtrack)
+	G_Free_Element(g_elem, TRUE);
       g_elem->size = 0;
     }
 
-- 
2.43.0


From 03c58eac26f8583282509c630c65437c9749f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 46/91] fix: an indirect index expanding an automatic array
 left a dangling element pointer

With g_assign(t, g_array_auto(2)), the access t(t(9)) or t(0)-t(9) used the\nelement address computed before the reallocation.
---
 src/BipsPl/g_var_inl_c.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 73b8eb6..2113b8d 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -975,6 +975,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
   PlLong i, j, size;
   int new_size;
   PlLong index;
+  PlLong index_tbl[MAX_ARITY];
   GTarget *gt = &g_target;
 
   arg_adr = Pl_Rd_Callable_Check(gvar_word, &atom, &arity);
@@ -1001,15 +1002,21 @@ Get_Target_From_Gvar(WamWord gvar_word)
 
   for (i = 0; i < arity; i++)
     {
-      size = g_elem->size;
-
       word1 = *arg_adr;
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word, FALSE);
+	{
+	  word = *Get_Int_Addr_From_Gvar(word, FALSE);
 
-      index = UnTag_INT(word);
+				/* this can have moved (expanded) arrays */
+	  g_elem = (GVarElt *) pl_atom_tbl[atom].info;
+	  for (j = 0; j < i; j++)
+	    g_elem = (GVarElt *) (g_elem->val) + index_tbl[j];
+	}
+
+      size = g_elem->size;
+      index = index_tbl[i] = UnTag_INT(word);
 
       if (size >= 0 || index < 0)
 	goto error;
@@ -1063,6 +1070,10 @@ Get_Target_From_Selector(WamWord *stc_adr)
 
   gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
   arg_no = Get_Int_From_Word(Arg(stc_adr, 1));
+  DEREF(Arg(stc_adr, 1), word, tag_mask);
+  if (tag_mask != TAG_INT_MASK)	/* the indirection can have moved arrays */
+    gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
+
   adr = Get_Term_Addr_From_Target(gt);
   if (adr == NULL)		/* an array */
     goto error;
-- 
2.43.0


From 7a76aaad98437acaf698cc6125d4881af16e01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 47/91] fix: a failing g_inc/3 on a linked term must not detach
 the variable from it

---
 src/BipsPl/g_var_inl_c.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 2113b8d..28e0c62 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1489,9 +1489,7 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
     Pl_Check_For_Un_Integer(new_word);
 
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
-
-  old = UnTag_INT(*adr);
+  old = UnTag_INT(*Get_Int_Addr_From_Gvar(gvar_word, FALSE));
   new = old + inc;
 
   if (new > INT_GREATEST_VALUE || new < INT_LOWEST_VALUE)
@@ -1500,6 +1498,7 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
     return FALSE;
 
+  adr = Get_Int_Addr_From_Gvar(gvar_word, TRUE);
   *adr = Tag_INT(new);		/* increment now - cf specif in doc */
 
   if (new_word != NOT_A_WAM_WORD && !Pl_Get_Integer(new, new_word))
-- 
2.43.0


From 7dade365f65f2bd35fa8e919d9def032f393dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 48/91] fix: keep the undo entries of an extended array

7fb0f18 dropped them, but the existing elements can be links which must
not survive backtracking.
---
 src/BipsPl/g_var_inl_c.c | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 28e0c62..4064a0f 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -737,7 +737,6 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   WamWord lst_word = 0;		/* init for the compiler */
   PlLong new_size, size, i;
   GVarElt *p;
-  GUndo *u;
 
   arity = Arity(stc_adr);
 
@@ -767,18 +766,8 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 
   size = -g_elem->size;
 
-  if (array_op == G_ARRAY_EXTEND)
-    {
-      if (new_size < size)	/* never shrink: nothing to add */
-	new_size = size;
-
-      if (!backtrack)		/* this assignment cannot be undone */
-	{
-	  for(u = g_elem->undo; u; u = u->next)
-	    u->g_elem = NULL;	/* invalidate this entry */
-	  g_elem->undo = NULL;
-	}
-    }
+  if (array_op == G_ARRAY_EXTEND && new_size < size)
+    new_size = size;		/* never shrink: nothing to add */
 
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
-- 
2.43.0


From 45d005ce405fbfbac707444122c179ab561bcc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 49/91] fix: min/max full arc-consistent constraints must keep
 ordering the result with both arguments

---
 src/BipsFD/fd_math_fd.fd | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/BipsFD/fd_math_fd.fd b/src/BipsFD/fd_math_fd.fd
index 4223e52..21ac1d1 100644
--- a/src/BipsFD/fd_math_fd.fd
+++ b/src/BipsFD/fd_math_fd.fd
@@ -619,15 +619,11 @@ pl_min_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))     /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
@@ -749,15 +745,11 @@ pl_max_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))      /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
-- 
2.43.0


From 4061e7cc3625942c2dbfcd011423eb0b0e85ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 50/91] fix: updating the extra_cstr flag of a domain also
 overwrote its min on 64 bits

---
 src/EngineFD/fd_inst.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_inst.c b/src/EngineFD/fd_inst.c
index 0928f44..7f8e518 100644
--- a/src/EngineFD/fd_inst.c
+++ b/src/EngineFD/fd_inst.c
@@ -355,7 +355,8 @@ static void Clear_Queue(void);
 	}								   \
       else if (r->extra_cstr != (range)->extra_cstr)			   \
 	{								   \
-	  FD_Bind_OV((WamWord *) &(r->extra_cstr), (range->extra_cstr));   \
+	  Trail_Range_If_Necessary(fdv_adr);				   \
+	  r->extra_cstr = (range)->extra_cstr;				   \
 	  Set_Dom_Mask(propag);						   \
 	}								   \
     }									   \
-- 
2.43.0


From 486eb59a513acb09dee1d46a3d582c4de2e8de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 51/91] fix: writing a FD variable with many intervals
 overflowed a fixed buffer

---
 src/EngineFD/fd_range.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index 380f084..c1bb192 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -1700,9 +1700,24 @@ Pl_Range_To_String(Range *range)
   int vec_elem;
   int limit1 = -1;
   int limit2 = 0;		/* init for the compiler */
-  static char buff[100 * 1024];
+  static char *buff = NULL;
+  static size_t buff_size = 0;
+  size_t size;
+  char *p;
 
 
+  size = 64;			/* each element needs at most 12 chars (number + separator) */
+  if (Is_Not_Empty(range) && Is_Sparse(range))
+    size += (size_t) Pl_Range_Nb_Elem(range) * 12;
+
+  if (size > buff_size)
+    {
+      if (buff)
+	Free(buff);
+      buff = (char *) Malloc(size);
+      buff_size = size;
+    }
+
   if (Is_Empty(range))
     {
       strcpy(buff, "<empty range>");
@@ -1724,7 +1739,7 @@ Pl_Range_To_String(Range *range)
       return buff;
     }
 
-  strcpy(buff, WRITE_BEGIN_RANGE);
+  p = buff + sprintf(buff, "%s", WRITE_BEGIN_RANGE);
 
   VECTOR_BEGIN_ENUM(range->vec, vec_elem);
   if (limit1 == -1)
@@ -1734,10 +1749,10 @@ Pl_Range_To_String(Range *range)
   else
     {
       if (limit2 == limit1)
-	sprintf(buff + strlen(buff), "%d%s",
+	p += sprintf(p, "%d%s",
 		limit1, WRITE_INTERVALS_SEPARATOR);
       else
-	sprintf(buff + strlen(buff), "%d%s%d%s",
+	p += sprintf(p, "%d%s%d%s",
 		limit1, WRITE_LIMITS_SEPARATOR, limit2,
 		WRITE_INTERVALS_SEPARATOR);
       limit1 = limit2 = vec_elem;
@@ -1747,14 +1762,14 @@ Pl_Range_To_String(Range *range)
   if (limit1 != -1)
     {
       if (limit2 == limit1)
-	sprintf(buff + strlen(buff), "%d%s", limit1, WRITE_END_RANGE);
+	p += sprintf(p, "%d%s", limit1, WRITE_END_RANGE);
       else
-	sprintf(buff + strlen(buff), "%d%s%d%s",
+	p += sprintf(p, "%d%s%d%s",
 		limit1, WRITE_LIMITS_SEPARATOR, limit2, WRITE_END_RANGE);
     }
 
   if (range->extra_cstr)
-    sprintf(buff + strlen(buff), "%s", WRITE_EXTRA_CSTR_SYMBOL);
+    p += sprintf(p, "%s", WRITE_EXTRA_CSTR_SYMBOL);
 
   return buff;
 }
-- 
2.43.0


From ae0271aff38d9801c90a721311ef41e9717ea035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 52/91] fix: looking for the bounds of an empty domain vector
 read past its end

---
 src/EngineFD/fd_range.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index c1bb192..f91a6fb 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -1016,13 +1016,13 @@ Pl_Range_From_Vector(Range *range)
   end = range->vec + pl_vec_size;
 
   for (;;)
-    if (*++start)
-      break;
-    else if (start >= end)
+    if (++start >= end)
       {
 	Set_To_Empty(range);
 	return;
       }
+    else if (*start)
+      break;
 
   for (;;)
     if (*--end)
-- 
2.43.0


From a4b6769d76906a82a002fd7d500fd0514f4bf363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 53/91] fix: an empty FD range kept an uninitialised min
 (fd_domain(X,[200]) could give X = -2147483648)

---
 src/EngineFD/fd_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EngineFD/fd_range.h b/src/EngineFD/fd_range.h
index a675f85..e4cb21c 100644
--- a/src/EngineFD/fd_range.h
+++ b/src/EngineFD/fd_range.h
@@ -279,7 +279,7 @@ char *Pl_Range_To_String(Range *range);
 #define Is_Not_Empty(range)        ((range)->max >= (range)->min)
 
 
-#define Set_To_Empty(range) (range)->max = (int)(1U << (sizeof(int) * 8 - 1))
+#define Set_To_Empty(range) ((range)->min = 0, (range)->max = (int)(1U << (sizeof(int) * 8 - 1)))
 
 
 #define Range_Init_Interval(range, r_min, r_max)	\
-- 
2.43.0


From 44bd5973e186447a145aca891c32713ded19852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 54/91] fix: accept the documented value_method(bounds) in
 fd_labeling/2

---
 src/BipsFD/fd_values.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsFD/fd_values.pl b/src/BipsFD/fd_values.pl
index c84af15..e8236e3 100644
--- a/src/BipsFD/fd_values.pl
+++ b/src/BipsFD/fd_values.pl
@@ -174,6 +174,8 @@ fd_labeling(List, Options) :-
 	    '$sys_var_write'(1, 4)
 	;   X = limits,
 	    '$sys_var_write'(1, 5)
+	;   X = bounds,
+	    '$sys_var_write'(1, 5)
 	).
 
 '$get_labeling_options2'(reorder(X)) :-
-- 
2.43.0


From f1f4631bf5b0fdd741642c011e02b810daffd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 55/91] fix: delete_directory/1, unlink/1 and delete_file/1
 reported their errors with arity 2

---
 src/BipsPl/os_interf.pl  | 6 +++---
 src/BipsPl/os_interf.wam | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/os_interf.pl b/src/BipsPl/os_interf.pl
index 3b8a201..e29dffe 100644
--- a/src/BipsPl/os_interf.pl
+++ b/src/BipsPl/os_interf.pl
@@ -49,7 +49,7 @@ make_directory(PathName) :-
 
 
 delete_directory(PathName) :-
-	set_bip_name(delete_directory, 2),
+	set_bip_name(delete_directory, 1),
 	'$call_c_test'('Pl_Delete_Directory_1'(PathName)).
 
 
@@ -90,14 +90,14 @@ copy_file(PathName1, PathName2) :-
 
 
 unlink(PathName) :-
-	set_bip_name(unlink, 2),
+	set_bip_name(unlink, 1),
 	'$call_c'('Pl_Unlink_1'(PathName)).
 
 
 
 
 delete_file(PathName) :-
-	set_bip_name(delete_file, 2),
+	set_bip_name(delete_file, 1),
 	'$call_c_test'('Pl_Delete_File_1'(PathName)).
 
 
diff --git a/src/BipsPl/os_interf.wam b/src/BipsPl/os_interf.wam
index cc67fb1..95781b8 100644
--- a/src/BipsPl/os_interf.wam
+++ b/src/BipsPl/os_interf.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: os_interf.pl
-% hash: b267034c55b326f6beaf295327eb21e514e82ad9  os_interf.pl
+% hash: 2558f34cd3883199511ca2b9432071c0c74c2405  os_interf.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/os_interf.pl').
@@ -17,7 +17,7 @@ predicate(make_directory/1,44,static,private,monofile,built_in,[
 
 
 predicate(delete_directory/1,51,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_directory,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_directory,1]),
     call_c('Pl_Delete_Directory_1',[boolean],[x(0)]),
     proceed]).
 
@@ -53,13 +53,13 @@ predicate(copy_file/2,85,static,private,monofile,built_in,[
 
 
 predicate(unlink/1,92,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[unlink,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[unlink,1]),
     call_c('Pl_Unlink_1',[],[x(0)]),
     proceed]).
 
 
 predicate(delete_file/1,99,static,private,monofile,built_in,[
-    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_file,2]),
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[delete_file,1]),
     call_c('Pl_Delete_File_1',[boolean],[x(0)]),
     proceed]).
 
-- 
2.43.0


From a3575246bdbec8aeb4e9bf394e8f02bd63c2d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 56/91] fix: errors of fd_dom/2 were reported as errors of
 fd_domain/2

---
 src/BipsFD/fd_infos.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsFD/fd_infos.pl b/src/BipsFD/fd_infos.pl
index e92ca24..5ef2cf9 100644
--- a/src/BipsFD/fd_infos.pl
+++ b/src/BipsFD/fd_infos.pl
@@ -75,7 +75,7 @@ fd_max(Fdv, Max) :-
 
 
 fd_dom(Fdv, List) :-
-	set_bip_name(fd_domain, 2),
+	set_bip_name(fd_dom, 2),
 	'$call_c_test'('Pl_Fd_Dom_2'(Fdv, List)).
 
 
-- 
2.43.0


From cf40b0803203dfa9136848ea8a1828c060e00804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 57/91] fix: errors of length/2 were reported for the previous
 built-in

---
 src/BipsPl/list.pl  |  1 +
 src/BipsPl/list.wam | 95 +++++++++++++++++++++++----------------------
 2 files changed, 49 insertions(+), 47 deletions(-)

diff --git a/src/BipsPl/list.pl b/src/BipsPl/list.pl
index aa3c8ae..a6cfcda 100644
--- a/src/BipsPl/list.pl
+++ b/src/BipsPl/list.pl
@@ -221,6 +221,7 @@ length(L, N) :-
 
 
 length(L, N) :-
+	set_bip_name(length, 2),
 	'$call_c_test'('Pl_Length_2'(L, N)).
 
 
diff --git a/src/BipsPl/list.wam b/src/BipsPl/list.wam
index f68053d..6a2fc95 100644
--- a/src/BipsPl/list.wam
+++ b/src/BipsPl/list.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: list.pl
-% hash: 8d3e07c4f734fac43366076ecf4781e6ebc7b7f9  list.pl
+% hash: 51d1e9ee39a870c0be9fbc55b9a07b86f2af506d  list.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/list.pl').
@@ -292,20 +292,21 @@ label(4),
 
 
 predicate(length/2,223,static,private,monofile,built_in,[
+    call_c('Pl_Set_Bip_Name_Untagged_2',[],[length,2]),
     call_c('Pl_Length_2',[boolean],[x(0),x(1)]),
     proceed]).
 
 
-predicate('$length_alt'/0,227,static,private,monofile,built_in,[
+predicate('$length_alt'/0,228,static,private,monofile,built_in,[
     call_c('Pl_Length_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate(nth/3,261,static,private,monofile,built_in,[
+predicate(nth/3,262,static,private,monofile,built_in,[
     execute(nth1/3)]).
 
 
-predicate(nth1/3,264,static,private,monofile,built_in,[
+predicate(nth1/3,265,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -324,7 +325,7 @@ label(1),
     execute('$nth_gener'/4)]).
 
 
-predicate(nth0/3,273,static,private,monofile,built_in,[
+predicate(nth0/3,274,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -343,7 +344,7 @@ label(1),
     execute('$nth_gener'/4)]).
 
 
-predicate('$nth_gener'/4,283,static,private,monofile,built_in,[
+predicate('$nth_gener'/4,284,static,private,monofile,built_in,[
     switch_on_term(2,fail,fail,1,fail),
 
 label(1),
@@ -373,7 +374,7 @@ label(5),
     execute('$nth_gener'/4)]).
 
 
-predicate(max_list/2,293,static,private,monofile,built_in,[
+predicate(max_list/2,294,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_list(0),
     unify_variable(x(1)),
@@ -381,7 +382,7 @@ predicate(max_list/2,293,static,private,monofile,built_in,[
     execute('$max_list1'/3)]).
 
 
-predicate('$max_list1'/3,296,static,private,monofile,built_in,[
+predicate('$max_list1'/3,297,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,3,fail,1,fail),
@@ -422,7 +423,7 @@ label(7),
     execute('$max_list1'/3)]).
 
 
-predicate(min_list/2,308,static,private,monofile,built_in,[
+predicate(min_list/2,309,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_list(0),
     unify_variable(x(1)),
@@ -430,7 +431,7 @@ predicate(min_list/2,308,static,private,monofile,built_in,[
     execute('$min_list1'/3)]).
 
 
-predicate('$min_list1'/3,311,static,private,monofile,built_in,[
+predicate('$min_list1'/3,312,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     switch_on_term(2,3,fail,1,fail),
@@ -471,13 +472,13 @@ label(7),
     execute('$min_list1'/3)]).
 
 
-predicate(sum_list/2,324,static,private,monofile,built_in,[
+predicate(sum_list/2,325,static,private,monofile,built_in,[
     put_value(x(1),2),
     put_integer(0,1),
     execute('$sum_list1'/3)]).
 
 
-predicate('$sum_list1'/3,327,static,private,monofile,built_in,[
+predicate('$sum_list1'/3,328,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -502,7 +503,7 @@ label(4),
     execute('$sum_list1'/3)]).
 
 
-predicate(flatten/2,335,static,private,monofile,built_in,[
+predicate(flatten/2,336,static,private,monofile,built_in,[
     pragma_arity(3),
     get_current_choice(x(2)),
     allocate(3),
@@ -518,7 +519,7 @@ predicate(flatten/2,335,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$flatten'/3,339,static,private,monofile,built_in,[
+predicate('$flatten'/3,340,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -568,14 +569,14 @@ label(6),
     proceed]).
 
 
-predicate(maplist/2,356,static,private,monofile,built_in,[
+predicate(maplist/2,357,static,private,monofile,built_in,[
     get_variable(x(2),1),
     get_variable(x(1),0),
     put_value(x(2),0),
     execute('$maplist'/2)]).
 
 
-predicate('$maplist'/2,359,static,private,monofile,built_in,[
+predicate('$maplist'/2,360,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -602,7 +603,7 @@ label(4),
     execute('$maplist'/2)]).
 
 
-predicate(maplist/3,370,static,private,monofile,built_in,[
+predicate(maplist/3,371,static,private,monofile,built_in,[
     get_variable(x(3),2),
     get_variable(x(2),0),
     put_value(x(1),0),
@@ -610,7 +611,7 @@ predicate(maplist/3,370,static,private,monofile,built_in,[
     execute('$maplist'/3)]).
 
 
-predicate('$maplist'/3,373,static,private,monofile,built_in,[
+predicate('$maplist'/3,374,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -643,7 +644,7 @@ label(4),
     execute('$maplist'/3)]).
 
 
-predicate(maplist/4,384,static,private,monofile,built_in,[
+predicate(maplist/4,385,static,private,monofile,built_in,[
     get_variable(x(4),3),
     get_variable(x(3),0),
     put_value(x(1),0),
@@ -652,7 +653,7 @@ predicate(maplist/4,384,static,private,monofile,built_in,[
     execute('$maplist'/4)]).
 
 
-predicate('$maplist'/4,387,static,private,monofile,built_in,[
+predicate('$maplist'/4,388,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -691,7 +692,7 @@ label(4),
     execute('$maplist'/4)]).
 
 
-predicate(maplist/5,398,static,private,monofile,built_in,[
+predicate(maplist/5,399,static,private,monofile,built_in,[
     get_variable(x(5),4),
     get_variable(x(4),0),
     put_value(x(1),0),
@@ -701,7 +702,7 @@ predicate(maplist/5,398,static,private,monofile,built_in,[
     execute('$maplist'/5)]).
 
 
-predicate('$maplist'/5,401,static,private,monofile,built_in,[
+predicate('$maplist'/5,402,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -746,7 +747,7 @@ label(4),
     execute('$maplist'/5)]).
 
 
-predicate(maplist/6,412,static,private,monofile,built_in,[
+predicate(maplist/6,413,static,private,monofile,built_in,[
     get_variable(x(6),5),
     get_variable(x(5),0),
     put_value(x(1),0),
@@ -757,7 +758,7 @@ predicate(maplist/6,412,static,private,monofile,built_in,[
     execute('$maplist'/6)]).
 
 
-predicate('$maplist'/6,415,static,private,monofile,built_in,[
+predicate('$maplist'/6,416,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -808,7 +809,7 @@ label(4),
     execute('$maplist'/6)]).
 
 
-predicate(maplist/7,426,static,private,monofile,built_in,[
+predicate(maplist/7,427,static,private,monofile,built_in,[
     get_variable(x(7),6),
     get_variable(x(6),0),
     put_value(x(1),0),
@@ -820,7 +821,7 @@ predicate(maplist/7,426,static,private,monofile,built_in,[
     execute('$maplist'/7)]).
 
 
-predicate('$maplist'/7,429,static,private,monofile,built_in,[
+predicate('$maplist'/7,430,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -877,7 +878,7 @@ label(4),
     execute('$maplist'/7)]).
 
 
-predicate(maplist/8,440,static,private,monofile,built_in,[
+predicate(maplist/8,441,static,private,monofile,built_in,[
     get_variable(x(8),7),
     get_variable(x(7),0),
     put_value(x(1),0),
@@ -890,7 +891,7 @@ predicate(maplist/8,440,static,private,monofile,built_in,[
     execute('$maplist'/8)]).
 
 
-predicate('$maplist'/8,443,static,private,monofile,built_in,[
+predicate('$maplist'/8,444,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -953,7 +954,7 @@ label(4),
     execute('$maplist'/8)]).
 
 
-predicate(maplist/9,454,static,private,monofile,built_in,[
+predicate(maplist/9,455,static,private,monofile,built_in,[
     get_variable(x(9),8),
     get_variable(x(8),0),
     put_value(x(1),0),
@@ -967,7 +968,7 @@ predicate(maplist/9,454,static,private,monofile,built_in,[
     execute('$maplist'/9)]).
 
 
-predicate('$maplist'/9,457,static,private,monofile,built_in,[
+predicate('$maplist'/9,458,static,private,monofile,built_in,[
     switch_on_term(1,2,fail,4,fail),
 
 label(1),
@@ -1036,7 +1037,7 @@ label(4),
     execute('$maplist'/9)]).
 
 
-predicate('$$prop_meta_pred/3_$aux1'/3,354,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux1'/3,355,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(2,1),
     get_structure(maplist/2,2),
@@ -1045,7 +1046,7 @@ predicate('$$prop_meta_pred/3_$aux1'/3,354,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux2'/3,368,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux2'/3,369,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(3,1),
     get_structure(maplist/3,2),
@@ -1055,7 +1056,7 @@ predicate('$$prop_meta_pred/3_$aux2'/3,368,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux3'/3,382,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux3'/3,383,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(4,1),
     get_structure(maplist/4,2),
@@ -1066,7 +1067,7 @@ predicate('$$prop_meta_pred/3_$aux3'/3,382,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux4'/3,396,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux4'/3,397,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(5,1),
     get_structure(maplist/5,2),
@@ -1078,7 +1079,7 @@ predicate('$$prop_meta_pred/3_$aux4'/3,396,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux5'/3,410,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux5'/3,411,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(6,1),
     get_structure(maplist/6,2),
@@ -1091,7 +1092,7 @@ predicate('$$prop_meta_pred/3_$aux5'/3,410,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux6'/3,424,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux6'/3,425,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(7,1),
     get_structure(maplist/7,2),
@@ -1105,7 +1106,7 @@ predicate('$$prop_meta_pred/3_$aux6'/3,424,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux7'/3,438,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux7'/3,439,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(8,1),
     get_structure(maplist/8,2),
@@ -1120,7 +1121,7 @@ predicate('$$prop_meta_pred/3_$aux7'/3,438,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$$prop_meta_pred/3_$aux8'/3,452,static,private,monofile,local,[
+predicate('$$prop_meta_pred/3_$aux8'/3,453,static,private,monofile,local,[
     get_atom(maplist,0),
     get_integer(9,1),
     get_structure(maplist/9,2),
@@ -1136,7 +1137,7 @@ predicate('$$prop_meta_pred/3_$aux8'/3,452,static,private,monofile,local,[
     proceed]).
 
 
-predicate('$prop_meta_pred'/3,354,static,private,multifile,local,[
+predicate('$prop_meta_pred'/3,355,static,private,multifile,local,[
     get_variable(x(3),0),
     put_structure('$prop_meta_pred'/3,0),
     unify_local_value(x(3)),
@@ -1148,7 +1149,7 @@ predicate('$prop_meta_pred'/3,354,static,private,multifile,local,[
     execute('$call'/4)]).
 
 
-directive(354,system,[
+directive(355,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux1'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1160,7 +1161,7 @@ directive(354,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(368,system,[
+directive(369,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux2'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1173,7 +1174,7 @@ directive(368,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(382,system,[
+directive(383,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux3'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1187,7 +1188,7 @@ directive(382,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(396,system,[
+directive(397,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux4'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1202,7 +1203,7 @@ directive(396,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(410,system,[
+directive(411,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux5'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1218,7 +1219,7 @@ directive(410,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(424,system,[
+directive(425,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux6'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1235,7 +1236,7 @@ directive(424,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(438,system,[
+directive(439,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux7'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
@@ -1253,7 +1254,7 @@ directive(438,system,[
     execute('$add_clause_term'/2)]).
 
 
-directive(452,system,[
+directive(453,system,[
     call_c('Pl_Emit_BC_Execute_Wrapper',[],['$prop_meta_pred',3,&('$$prop_meta_pred/3_$aux8'/3)]),
     put_structure('$prop_meta_pred'/3,0),
     unify_atom(maplist),
-- 
2.43.0


From 2042260f0ec629c698b0da79efc2c34ead28ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 58/91] fix: listing/1 reported the errors of its argument for
 an internal predicate

---
 src/BipsPl/consult.pl  |  1 +
 src/BipsPl/consult.wam | 30 +++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/consult.pl b/src/BipsPl/consult.pl
index 5a7c42c..8730809 100644
--- a/src/BipsPl/consult.pl
+++ b/src/BipsPl/consult.pl
@@ -557,6 +557,7 @@ listing(N) :-
 	'$listing_all'(N/_).
 
 listing(PI) :-
+	\+ \+ (set_bip_name(listing, 1), '$current_predicate'(PI) ; true),	% check PI
 	'$listing_all'(PI).
 
 
diff --git a/src/BipsPl/consult.wam b/src/BipsPl/consult.wam
index c161d94..0ca8f0a 100644
--- a/src/BipsPl/consult.wam
+++ b/src/BipsPl/consult.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: consult.pl
-% hash: 60672638177dc2f83e4449ffa409fe8cd03d948d  consult.pl
+% hash: 29bb5a65abb73fef3f628a9a1e70974045544d4b  consult.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/consult.pl').
@@ -1610,10 +1610,26 @@ label(1),
 
 label(2),
     trust_me_else_fail,
+    allocate(1),
+    get_variable(y(0),0),
+    put_structure(set_bip_name/2,0),
+    unify_atom(listing),
+    unify_integer(1),
+    put_structure((',')/2,1),
+    unify_value(x(0)),
+    unify_structure('$current_predicate'/1),
+    unify_local_value(y(0)),
+    put_structure((\+)/1,0),
+    unify_structure((;)/2),
+    unify_value(x(1)),
+    unify_atom(true),
+    call((\+)/1),
+    put_value(y(0),0),
+    deallocate,
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/0,566,static,private,monofile,built_in,[
+predicate('$listing_any'/0,567,static,private,monofile,built_in,[
     allocate(0),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],['$listing_any',0]),
     put_integer(5,0),
@@ -1624,7 +1640,7 @@ predicate('$listing_any'/0,566,static,private,monofile,built_in,[
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_any'/1,573,static,private,monofile,built_in,[
+predicate('$listing_any'/1,574,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1656,7 +1672,7 @@ label(2),
     execute('$listing_all'/1)]).
 
 
-predicate('$listing_all'/1,593,static,private,monofile,built_in,[
+predicate('$listing_all'/1,594,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(3),
     get_variable(x(2),0),
@@ -1688,7 +1704,7 @@ label(1),
     proceed]).
 
 
-predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
+predicate('$listing_one_pi'/3,604,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1710,7 +1726,7 @@ predicate('$listing_one_pi'/3,603,static,private,monofile,built_in,[
     execute('$predicate_property_pi_any'/2)]).
 
 
-predicate('$$listing_one_pi/3_$aux1'/1,603,static,private,monofile,local,[
+predicate('$$listing_one_pi/3_$aux1'/1,604,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1739,7 +1755,7 @@ label(1),
     execute('$not_aux_name'/1)]).
 
 
-predicate('$listing_one'/1,629,static,private,monofile,built_in,[
+predicate('$listing_one'/1,630,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
-- 
2.43.0


From c3c9d7cad2c81a1543bd520cd1756e472551222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 59/91] fix: fd_element/3 and fd_element_var/3 wrote outside
 the vector of a domain

---
 src/BipsFD/fd_symbolic_c.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/BipsFD/fd_symbolic_c.c b/src/BipsFD/fd_symbolic_c.c
index e54c524..6c50759 100644
--- a/src/BipsFD/fd_symbolic_c.c
+++ b/src/BipsFD/fd_symbolic_c.c
@@ -175,6 +175,7 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
 
   /* when I changes -> update V */
 
+  v->extra_cstr = FALSE;
   Vector_Allocate(v->vec);
   Pl_Vector_Empty(v->vec);
 
@@ -183,7 +184,10 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
       for (j = i->min; j <= i->max; j++)
 	{
 	  val = (int) (l[j]);
-	  Vector_Set_Value(v->vec, val);
+	  if ((unsigned) val <= (unsigned) pl_vec_max_integer)
+	    Vector_Set_Value(v->vec, val);
+	  else if (val >= 0)
+	    v->extra_cstr = TRUE;
 	}
     }
   else
@@ -191,7 +195,10 @@ Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
       VECTOR_BEGIN_ENUM(i->vec, j);
 
       val = (int) (l[j]);
-      Vector_Set_Value(v->vec, val);
+      if ((unsigned) val <= (unsigned) pl_vec_max_integer)
+	Vector_Set_Value(v->vec, val);
+      else if (val >= 0)
+	v->extra_cstr = TRUE;
 
       VECTOR_END_ENUM;
     }
@@ -219,6 +226,8 @@ Pl_Fd_Element_V_To_I(Range *i, Range *v, WamWord *l)
   Pl_Vector_Empty(i->vec);
 
   n = (int) (*l);
+  if ((i->extra_cstr = (n > pl_vec_max_integer)))
+    n = (int) pl_vec_max_integer;
 
   for (j = 1; j <= n; j++)
     {
@@ -303,6 +312,8 @@ Pl_Fd_Element_Var_V_To_I(Range *i, Range *v, WamWord **l)
   /* when V or L changes -> update I */
 
   n = (int) (PlLong) (*l);
+  if ((i->extra_cstr = (n > pl_vec_max_integer)))
+    n = (int) pl_vec_max_integer;
 
   for (j = 1; j <= n; j++)
     {
-- 
2.43.0


From 391394a140cf8fd37af332ad85a9a0b2bca0f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 60/91] fix: fd_relation([], Vars) looped until the global
 stack overflowed

---
 src/BipsFD/fd_symbolic.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsFD/fd_symbolic.pl b/src/BipsFD/fd_symbolic.pl
index f8ed40f..78253e5 100644
--- a/src/BipsFD/fd_symbolic.pl
+++ b/src/BipsFD/fd_symbolic.pl
@@ -90,6 +90,7 @@ fd_relation(Tuples, Vars) :-
 	set_bip_name(fd_relation, 2),
 	'$check_list'(Tuples),
 	'$check_list_or_partial_list'(Vars),
+	Tuples = [_|_],			% no tuple: no solution
 	'$lines_to_columns'(Tuples, CTuples),
 	'$fd_relationc1'(CTuples, Vars, _).
 
-- 
2.43.0


From 92cc78ad9fdaedbbfd8b8cc7458f2365c5ed057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 61/91] fix: fd_maximize/2 looped once the variable reached
 fd_max_integer

---
 src/BipsFD/fd_optim.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsFD/fd_optim.pl b/src/BipsFD/fd_optim.pl
index 37a2829..78acd1a 100644
--- a/src/BipsFD/fd_optim.pl
+++ b/src/BipsFD/fd_optim.pl
@@ -72,7 +72,8 @@ fd_maximize(Goal, Var) :-
 	g_read('$cur_max', B),
 	B1 is B + 1,
 	set_bip_name(fd_maximize, 2),
-	(   '$fd_domain'(Var, B1, Inf),
+	(   B < Inf,
+	    '$fd_domain'(Var, B1, Inf),
 	    '$call'(Goal, fd_maximize, 2, true) ->
 	    fd_max(Var, C),
 	    g_assign('$cur_max', C),
-- 
2.43.0


From b8a971e61a2bce080f1c7a17297b8a636bcd7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 62/91] fix: a failed spawn/exec rewound the input streams of
 the parent process

---
 src/EnginePl/os_spawn.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 564d656..6fcfaf7 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -335,7 +335,7 @@ Pl_Spawn(char *arg[])
   if (pid == 0)			/* child process */
     {
       execvp(arg[0], arg);	/* only returns on error */
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
     }
 
   return Pl_Get_Status(pid);
@@ -513,7 +513,7 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 	if ((pid1 = fork()) < 0) /* create grandchild to ensure no terminal */
 	  goto err;
 	if (pid1 != 0)
-	  exit(0);    /* terminate child (only remains parent and grandchild) */
+	  _exit(0);    /* terminate child (only remains parent and grandchild) */
       }
 #endif
       for(i = 0; i < 3; i++)
@@ -551,7 +551,7 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
       system(buff);
 #endif	
 #endif
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
     }
 
   /* in the parent */
-- 
2.43.0


From b8cebfb0f2b622ed079ec4a9f6f9885b15a70c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 63/91] fix: spawn/3 with more than 1023 arguments overflowed
 its argument array

---
 src/BipsPl/os_interf_c.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 431b671..c0d9df4 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1001,14 +1001,18 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
   WamWord word, tag_mask;
   WamWord save_list_word;
   WamWord *lst_adr;
-  char *arg[MAX_SPAWN_ARGS];
-  char **p = arg;
+  static char **arg = NULL;
+  static int max_arg = 0;
+  int n = 0;
   char err[64];
   int status;
 
   save_list_word = list_word;
 
-  *p++ = Pl_Rd_String_Check(cmd_word);
+  if (arg == NULL)
+    arg = (char **) Malloc((max_arg = MAX_SPAWN_ARGS) * sizeof(char *));
+
+  arg[n++] = Pl_Rd_String_Check(cmd_word);
 
   for (;;)
     {
@@ -1025,12 +1029,15 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
 
       lst_adr = UnTag_LST(word);
 
-      *p++ = Pl_Rd_String_Check(Car(lst_adr));
+      if (n + 1 >= max_arg)	/* + 1 for the final NULL */
+	arg = (char **) Realloc((char *) arg, (max_arg *= 2) * sizeof(char *));
+
+      arg[n++] = Pl_Rd_String_Check(Car(lst_adr));
 
       list_word = Cdr(lst_adr);
     }
 
-  *p = NULL;
+  arg[n] = NULL;
   Pl_Check_For_Un_Integer(status_word);
 
   Pl_Flush_All_Streams();
-- 
2.43.0


From 5f9dd172afaf2c14bf4dd2d340ba45b2c548cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 64/91] fix: name the right predicate in the errors of
 fd_maximize/2

---
 src/BipsFD/fd_optim.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsFD/fd_optim.pl b/src/BipsFD/fd_optim.pl
index 78acd1a..66bd5ac 100644
--- a/src/BipsFD/fd_optim.pl
+++ b/src/BipsFD/fd_optim.pl
@@ -71,8 +71,8 @@ fd_maximize(Goal, Var) :-
 	repeat,
 	g_read('$cur_max', B),
 	B1 is B + 1,
-	set_bip_name(fd_maximize, 2),
 	(   B < Inf,
+	    set_bip_name(fd_maximize, 2),
 	    '$fd_domain'(Var, B1, Inf),
 	    '$call'(Goal, fd_maximize, 2, true) ->
 	    fd_max(Var, C),
-- 
2.43.0


From 9d9d71a88126d942d9571eb04833ddcc029d6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:08 +0000
Subject: [PATCH 65/91] fix: a soft-cut in a disjunction selected by indexing
 killed another choice-point

---
 src/Pl2Wam/first_arg.pl  |  5 +++++
 src/Pl2Wam/first_arg.wam | 26 +++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Pl2Wam/first_arg.pl b/src/Pl2Wam/first_arg.pl
index 15751e4..0a89852 100644
--- a/src/Pl2Wam/first_arg.pl
+++ b/src/Pl2Wam/first_arg.pl
@@ -56,6 +56,11 @@ stopping_inst(cut(_)).
 
 stopping_inst(soft_cut(_)).
 
+	% the choice-point recorded for a soft-cut must be the one of the whole
+	% disjunction: the clause must not be selected by the indexing
+
+stopping_inst(get_current_choice(_)).
+
 	% a clause cannot be skipped if it starts with an inline predicate which
 	% can raise an error or has a side-effect (arithmetic, g_assign,...)
 
diff --git a/src/Pl2Wam/first_arg.wam b/src/Pl2Wam/first_arg.wam
index 4f2049a..1c13b12 100644
--- a/src/Pl2Wam/first_arg.wam
+++ b/src/Pl2Wam/first_arg.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: first_arg.pl
-% hash: 04ea0679ce5f6ce30b2ea8730abce2480e23f81b  first_arg.pl
+% hash: 58e44a19903884263deabeceb36687812a25fab7  first_arg.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/first_arg.pl').
@@ -56,11 +56,11 @@ label(2),
 
 
 predicate(stopping_inst/1,51,static,private,monofile,global,[
-    try_me_else(12),
+    try_me_else(14),
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9),(call_c/3,11)]),
+    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9),(get_current_choice/1,11),(call_c/3,13)]),
 
 label(2),
     try_me_else(4),
@@ -95,9 +95,17 @@ label(9),
     proceed,
 
 label(10),
-    trust_me_else_fail,
+    retry_me_else(12),
 
 label(11),
+    get_structure(get_current_choice/1,0),
+    unify_void(1),
+    proceed,
+
+label(12),
+    trust_me_else_fail,
+
+label(13),
     get_structure(call_c/3,0),
     unify_variable(x(1)),
     unify_void(2),
@@ -105,7 +113,7 @@ label(11),
     unify_value(x(1)),
     execute((\+)/1),
 
-label(12),
+label(14),
     trust_me_else_fail,
     allocate(1),
     put_variable(y(0),1),
@@ -115,7 +123,7 @@ label(12),
     execute(assign_x0/1)]).
 
 
-predicate(pure_test/1,72,static,private,monofile,global,[
+predicate(pure_test/1,77,static,private,monofile,global,[
     switch_on_term(2,1,fail,fail,fail),
 
 label(1),
@@ -283,14 +291,14 @@ label(47),
     proceed]).
 
 
-predicate(assign_x0/1,99,static,private,monofile,global,[
+predicate(assign_x0/1,104,static,private,monofile,global,[
     get_list(0),
     unify_variable(x(0)),
     unify_variable(x(1)),
     execute('$assign_x0/1_$aux1'/2)]).
 
 
-predicate('$assign_x0/1_$aux1'/2,99,static,private,monofile,local,[
+predicate('$assign_x0/1_$aux1'/2,104,static,private,monofile,local,[
     try_me_else(6),
     switch_on_term(2,fail,fail,fail,1),
 
@@ -322,7 +330,7 @@ label(6),
     execute(assign_x0/1)]).
 
 
-predicate(defines_first_arg/2,110,static,private,monofile,global,[
+predicate(defines_first_arg/2,115,static,private,monofile,global,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-- 
2.43.0


From ec2021089ebf0bfe45cd3cc77551fbf61acf2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:08 +0000
Subject: [PATCH 66/91] fix: a final [] in a grammar rule made it non steadfast
 and could split an if-then-else

---
 src/BipsPl/expand_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/expand_c.c b/src/BipsPl/expand_c.c
index 29a771f..1ddf31f 100644
--- a/src/BipsPl/expand_c.c
+++ b/src/BipsPl/expand_c.c
@@ -363,7 +363,8 @@ Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars,
 
   if (word == NIL_WORD)
     {
-      opt_equal_between_in_out_vars = TRUE; /* deactivate to not always optimize [] as unif */
+      if (opt_term_unif)	/* only if no goal precedes (else not steadfast) */
+	opt_equal_between_in_out_vars = TRUE;
     in_is_out:
       if (opt_equal_between_in_out_vars)
 	Pl_Unify(in_word, out_word);
-- 
2.43.0


From cf1700d6891a45c147f2d24bdd3b02e40fd24e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 67/91] fix: error context of a warning no longer accumulates
 (and overflows its buffer)

---
 src/BipsPl/error_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/error_supp.c b/src/BipsPl/error_supp.c
index e625d6a..a24d353 100644
--- a/src/BipsPl/error_supp.c
+++ b/src/BipsPl/error_supp.c
@@ -402,7 +402,7 @@ Context_Error_String(void)
   if (cur_bip_arity < 0)
     return pl_atom_tbl[cur_bip_func].name;
 
-  sprintf(buff + strlen(buff), "%s/%d", pl_atom_tbl[cur_bip_func].name, cur_bip_arity);
+  snprintf(buff, sizeof(buff), "%s/%d", pl_atom_tbl[cur_bip_func].name, cur_bip_arity);
 
   return buff;
 }
-- 
2.43.0


From 8567c579e9fb8f4604e3f7e7dd5322d34c79f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 68/91] fix: syntax error with a long file name overflowed the
 message buffer

---
 src/BipsPl/error_supp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/error_supp.c b/src/BipsPl/error_supp.c
index a24d353..620de70 100644
--- a/src/BipsPl/error_supp.c
+++ b/src/BipsPl/error_supp.c
@@ -457,12 +457,12 @@ Pl_Syntax_Error_Info_4(WamWord file_name_word,
 void
 Pl_Syntax_Error(int flag_value)
 {
-  char str[512];
+  char str[8192];
 
   if (last_err_file == NULL || *last_err_file == '\0')
-    sprintf(str, "(char:%" PL_FMT_d ") %s", last_err_col, last_err_msg);
+    snprintf(str, sizeof(str), "(char:%" PL_FMT_d ") %s", last_err_col, last_err_msg);
   else
-    sprintf(str, "%s:%" PL_FMT_d " (char:%" PL_FMT_d ") %s", last_err_file,
+    snprintf(str, sizeof(str), "%s:%" PL_FMT_d " (char:%" PL_FMT_d ") %s", last_err_file,
 	    last_err_line, last_err_col, last_err_msg);
 
   if (flag_value == PF_ERR_ERROR)
-- 
2.43.0


From cdeb62dc6e6d19b6b77e7a43fc33603e88734162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 69/91] fix: the Prolog flag unix was named 1 (predefined macro
 expanded)

---
 src/BipsPl/flag_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/flag_c.c b/src/BipsPl/flag_c.c
index 7fc8c71..e58698d 100644
--- a/src/BipsPl/flag_c.c
+++ b/src/BipsPl/flag_c.c
@@ -140,6 +140,7 @@ PL_INITIALIZER(Flag_Initializer)
 #if defined(__unix__) || defined(__CYGWIN__) || defined(unix)
   is_unix = TRUE;
 #endif
+#undef unix			/* predefined by gcc: would rename the flag */
 
   atom_on = Pl_Create_Atom("on");
   atom_off = Pl_Create_Atom("off");
-- 
2.43.0


From 7c4a0e55436fb6f8811e48aaf1936a9c7e90e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 70/91] fix: Pl_Random_Float gave inf for large bounds

---
 src/EnginePl/machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EnginePl/machine.c b/src/EnginePl/machine.c
index 32fd883..bcce614 100644
--- a/src/EnginePl/machine.c
+++ b/src/EnginePl/machine.c
@@ -364,7 +364,7 @@ Pl_Random_Integer(PlLong n)
 double
 Pl_Random_Float(double n)
 {
-  return n * rand() / (RAND_MAX + 1.0);
+  return n * (rand() / (RAND_MAX + 1.0));
 }
 
 
-- 
2.43.0


From cbd49808037646149d410d81ce1d571a86ddbce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 71/91] fix: set_seed/1 refused seeds returned by get_seed/1

---
 src/BipsPl/random_c.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/random_c.c b/src/BipsPl/random_c.c
index ced6f99..38fdcb7 100644
--- a/src/BipsPl/random_c.c
+++ b/src/BipsPl/random_c.c
@@ -69,7 +69,12 @@
 void
 Pl_Set_Seed_1(WamWord seed_word)
 {
-  Pl_Set_Seed(Pl_Rd_C_Int_Positive_Check(seed_word));
+  PlLong seed = Pl_Rd_Positive_Check(seed_word);
+
+  if (seed != (PlLong) (unsigned int) seed)	/* too big: raise the error */
+    seed = Pl_Rd_C_Int_Positive_Check(seed_word);
+
+  Pl_Set_Seed((unsigned int) seed);
 }
 
 
-- 
2.43.0


From a7e314ecf3919b34a87e01ed10e89aae92a904e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 72/91] fix: random/3: integer only for integer bounds, exact
 integer bounds, float below the bound

---
 src/BipsPl/random_c.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/BipsPl/random_c.c b/src/BipsPl/random_c.c
index 38fdcb7..2bcaf70 100644
--- a/src/BipsPl/random_c.c
+++ b/src/BipsPl/random_c.c
@@ -37,6 +37,8 @@
 
 #include "gp_config.h"
 
+#include <float.h>
+
 #include "engine_pl.h"
 #include "bips_pl.h"
 
@@ -116,30 +118,31 @@ Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word)
 {
   double l, u;
   PlLong l1, u1;
-  PlLong i;
   double d;
+  Bool is_int;
 
 
   l = Pl_Rd_Number_Check(l_word);
   u = Pl_Rd_Number_Check(u_word);
   Pl_Check_For_Un_Variable(n_word);
 
-  if (l >= u)
-    return FALSE;
-
-  l1 = (PlLong) l;
-  u1 = (PlLong) u;
+  is_int = Pl_Blt_Integer(l_word) && Pl_Blt_Integer(u_word);
 
-  if (l1 == l && u1 == u)
-    {
-      i = l1 + Pl_Random_Integer(u1 - l1);
-      Pl_Get_Integer(i, n_word);
-    }
-  else
+  if (is_int)
     {
-      d = l + Pl_Random_Float(u - l);
-      Pl_Get_Float(d, n_word);
+      l1 = Pl_Rd_Integer(l_word);
+      u1 = Pl_Rd_Integer(u_word);
+
+      return l1 < u1 && Pl_Get_Integer(l1 + Pl_Random_Integer(u1 - l1), n_word);
     }
 
-  return TRUE;
+  if (!(l < u))
+    return FALSE;
+
+  do				/* rounding can yield u */
+    d = (u - l <= DBL_MAX) ? l + Pl_Random_Float(u - l) :
+	2 * (l / 2 + Pl_Random_Float(u / 2 - l / 2));
+  while(d >= u && u <= DBL_MAX);
+
+  return Pl_Get_Float(d, n_word);
 }
-- 
2.43.0


From e052acec99b6fd24cbdbb57a338cd0cb63e84e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 73/91] fix: gplc-filter kept the letter of an escape sequence
 when encoding a name

---
 src/TopComp/mangling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index 5d440be..a889e67 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -620,6 +620,7 @@ Parse_Atom(char *src, char *dst)
 	      if ((p = (char *) strchr(pl_escape_symbol, *src)))    /* \a \b \f \n \r \t \v */
 		{
 		  *dst++ = pl_escape_char[p - pl_escape_symbol];
+		  src++;
 		  continue;
 		}
 
-- 
2.43.0


From 12521993e8cf512c6ee36e281e642454952d4afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 74/91] fix: gplc-filter did not decode symbols of an encoded
 module and name, nor of the empty name

---
 src/TopComp/mangling.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index a889e67..52cf14f 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -332,7 +332,7 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
   char *p = NULL;		/* init for the compiler */
   char *q;
 
-  if (*str++ != 'X' || *str < '0' || *str >= '5')
+  if (*str++ != 'X' || *str < '0' || *str > '5')
     return NULL;
 
   n = *str++ - '0';
@@ -361,7 +361,7 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
     Copy_Not_Encoded_String(str, pred) :
     Decode_String(str, pred);
 
-  if (str == NULL || *pred == '\0')
+  if (str == NULL || (*pred == '\0' && !(strict && pred_encode)))
     return NULL;
 
   *arity = -1;
-- 
2.43.0


From 2746c282eae974dce2ebdb276fe81f304d9d8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 75/91] fix: gplc-filter buffers overflowed on long names

---
 src/TopComp/mangle_filter.c |  2 +-
 src/TopComp/mangling.c      | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/TopComp/mangle_filter.c b/src/TopComp/mangle_filter.c
index e3d2498..91502fb 100644
--- a/src/TopComp/mangle_filter.c
+++ b/src/TopComp/mangle_filter.c
@@ -152,7 +152,7 @@ main(int argc, char *argv[])
 void
 One_File(FILE *f)
 {
-  static char buff[4096];
+  static char buff[16384];
 
   for (;;)
     {
diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index 52cf14f..748ee5d 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -175,8 +175,8 @@ Mangle(char *module, char *pred, int arity, char *str)
 char *
 Mangle_Line(char *str, char *format, Bool strict)
 {
-  static char result[4096];
-  static char buff[4096];
+  static char result[65536];
+  static char buff[65536];
   char *module, *pred;
   char *src, *dst;
   char *p, *q, *free_in_buff;
@@ -427,9 +427,9 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
 char *
 Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
 {
-  static char result[4096];
-  static char module[2048];
-  static char pred[1024];
+  static char result[65536];
+  static char module[65536];
+  static char pred[65536];
   int arity;
   int aux_no;
   char *src, *dst, *p;
@@ -539,7 +539,7 @@ Decode_String(char *str, char *buff)
 static void
 Quote_If_Needed(char *str)
 {
-  static char buff[2048];
+  static char buff[65536];
   char *p;
   char *q, *r;
 
-- 
2.43.0


From 45688400b6ffc98a1f16bff7422b08281460068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:13 +0000
Subject: [PATCH 76/91] fix: wam2ma mangled the escaped text of predicate names
 (symbols did not decode to the name)

---
 src/Wam2Ma/wam2ma.c | 64 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 1e6a8c3..080b17a 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -483,6 +483,60 @@ F_file_name(ArgVal arg[])
 
 
 
+/*-------------------------------------------------------------------------*
+ * UNESCAPE                                                                *
+ *                                                                         *
+ * strings read by the WAM parser are C strings (with \\, \", \n, \ooo).   *
+ *-------------------------------------------------------------------------*/
+static char *
+Unescape(char *str, char *buff)
+{
+  static char symbol[] = "bfnrtv";
+  static char code[] = "\b\f\n\r\t\v";
+  char *p, *dst = buff;
+
+  while (*str)
+    {
+      if (*str != '\\')
+	*dst++ = *str++;
+      else if (str[1] >= '0' && str[1] <= '7')	/* always 3 octal digits */
+	{
+	  *dst++ = (char) ((str[1] - '0') * 64 + (str[2] - '0') * 8 + (str[3] - '0'));
+	  str += 4;
+	}
+      else
+	{
+	  p = strchr(symbol, str[1]);
+	  *dst++ = (p) ? code[p - symbol] : str[1];
+	  str += 2;
+	}
+    }
+
+  *dst = '\0';
+  return buff;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * MANGLE_PRED                                                             *
+ *                                                                         *
+ * mangle the names themselves (not the escaped strings denoting them).    *
+ *-------------------------------------------------------------------------*/
+static void
+Mangle_Pred(char *module, char *pred, int arity, char *str)
+{
+  static char buff_module[MAX_PRED_NAME_LENGTH];
+  static char buff_pred[MAX_PRED_NAME_LENGTH];
+
+  Mangle((module) ? Unescape(module, buff_module) : NULL,
+	 Unescape(pred, buff_pred), arity, str);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * F_PREDICATE                                                             *
  *                                                                         *
@@ -594,7 +648,7 @@ F_predicate(ArgVal arg[])
    *    - it belongs to module 'user' or 'system'
    */
 
-  Mangle((local_symbol || module_user_system) ? NULL : module, functor, (int) arity, buff_mangle + 1);
+  Mangle_Pred((local_symbol || module_user_system) ? NULL : module, functor, (int) arity, buff_mangle + 1);
   *buff_mangle = '&';
   cur_pred->mangle = strdup(buff_mangle);
 
@@ -666,7 +720,7 @@ F_ensure_linked(ArgVal arg[])
   while (nb_elem--)
     {
       LOAD_MP_N(m, p, n);
-      Mangle(m, p, (int) n, buff_mangle);
+      Mangle_Pred(m, p, (int) n, buff_mangle);
       Inst_Printf("pl_jump", "%s", buff_mangle);
     }
 }
@@ -1202,7 +1256,7 @@ F_call(ArgVal arg[])
 {
   Args1(MP_N(m, p, n));
 
-  Mangle(m, p, (int) n, buff_mangle);
+  Mangle_Pred(m, p, (int) n, buff_mangle);
 
   Inst_Printf("pl_call", "%s", buff_mangle);
 }
@@ -1219,7 +1273,7 @@ F_execute(ArgVal arg[])
 {
   Args1(MP_N(m, p, n));
 
-  Mangle(m, p, (int) n, buff_mangle);
+  Mangle_Pred(m, p, (int) n, buff_mangle);
 
   Inst_Printf("pl_jump", "%s", buff_mangle);
 }
@@ -1777,7 +1831,7 @@ F_call_c(ArgVal arg[])
 	  LOAD_STR(module);
 	  LOAD_STR(functor);
 	  LOAD_C_INT(arity);
-	  Mangle(module, functor, arity, buff_mangle);
+	  Mangle_Pred(module, functor, arity, buff_mangle);
 	  fprintf(file_out, "&%s", buff_mangle);
 	  break;
 	}
-- 
2.43.0


From a8ad92b9d51bef225d90f44b4cefe7206b1d3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:38 +0000
Subject: [PATCH 77/91] fix: gplc-filter took a number after a blank or sign
 for an arity

---
 src/TopComp/mangling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index 748ee5d..7c8770c 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -365,7 +365,7 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
     return NULL;
 
   *arity = -1;
-  if (*str == '_' && str[1] == '_' && str[2] == 'a') /*  the arity */
+  if (*str == '_' && str[1] == '_' && str[2] == 'a' && isdigit(str[3])) /* the arity */
     {
       *arity = strtoul(str + 3, &p, 10); /* +3 to skip '__a' */
       if (p == str + 3)
-- 
2.43.0


From b07642b794867c7a0313d86a5da73217953a891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 78/91] fix: undefined signed shift when looking for a
 neighbour value in a bit vector

---
 src/EngineFD/fd_range.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EngineFD/fd_range.c b/src/EngineFD/fd_range.c
index f91a6fb..d9bce72 100644
--- a/src/EngineFD/fd_range.c
+++ b/src/EngineFD/fd_range.c
@@ -241,7 +241,7 @@ Pl_Vector_Next_After(Vector vec, int n)
 
       start = vec + word_no;
 
-      word = (bit_no >= WORD_SIZE) ? 0 : *start & ~(((PlLong)1 << bit_no) - 1);
+      word = (bit_no >= WORD_SIZE) ? 0 : *start & ~(((VecWord)1 << bit_no) - 1);
     }
   else				/* n < 0 find first */
     {
@@ -293,7 +293,7 @@ Pl_Vector_Next_Before(Vector vec, int n)
 
       end = vec + word_no;
 
-      word = *end & (((PlLong)1 << bit_no) - 1);
+      word = *end & (((VecWord)1 << bit_no) - 1);
     }
   else				/* n > pl_vec_max_integer find last */
     {
-- 
2.43.0


From 582f4815cc2c6bdb791e2f7fbd796d36a2dc5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 79/91] fix: the end of the input at the prompt for further
 answers made the top level loop forever

---
 src/BipsPl/top_level.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsPl/top_level.pl b/src/BipsPl/top_level.pl
index 4834dd0..01e7797 100644
--- a/src/BipsPl/top_level.pl
+++ b/src/BipsPl/top_level.pl
@@ -342,6 +342,8 @@ break :-
 
 '$read_return'(13).		% carriage-return
 
+'$read_return'(-1).		% end of file
+
 '$read_return'(97) :-		% 'a'
 	g_assign('$all_solutions', t), !,
 	fail.
-- 
2.43.0


From 0635d848a74d37c39166a92eecf6ff126dcd9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:09 +0000
Subject: [PATCH 80/91] fix: abort with the handler of the top level current
 failed at a wrong choice point and left a stale ball behind

---
 src/BipsPl/catch.pl      |  5 +++--
 src/BipsPl/catch.wam     | 19 ++++++++++++------
 src/BipsPl/top_level.wam | 43 +++++++++++++++++++++++-----------------
 3 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/BipsPl/catch.pl b/src/BipsPl/catch.pl
index aa5b70a..06e91a0 100644
--- a/src/BipsPl/catch.pl
+++ b/src/BipsPl/catch.pl
@@ -95,7 +95,8 @@
 	Ball = '$catch_sync'(B), !,
 	(   Handler > B ->
 	    '$unwind'('$catch_sync'(B))
-	;   '$catch_fail_now'(B)
+	;   '$sys_var_put'(8, '$no_ball$'),
+	    '$catch_fail_now'(B)
 	).
 
 '$catch_a_throw'(Ball, Ball1, Recovery, CallInfo, _) :-
@@ -129,7 +130,7 @@
 % write(catch_sync(Handler, B)), nl,
 	(   Handler > B ->
 	    throw('$catch_sync'(B))
-	;   '$catch_fail_now'(Handler)
+	;   '$catch_fail_now'(B)
 	).
 
 
diff --git a/src/BipsPl/catch.wam b/src/BipsPl/catch.wam
index e9e45f5..cc47bda 100644
--- a/src/BipsPl/catch.wam
+++ b/src/BipsPl/catch.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: catch.pl
-% hash: 15cfff66ca76255ed6dda62048520a1655aa5201  catch.pl
+% hash: 96261b3722c7897eea69cac3de5416f71de6476b  catch.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/catch.pl').
@@ -160,11 +160,17 @@ predicate('$$catch_a_throw/5_$aux1'/2,91,static,private,monofile,local,[
 
 label(1),
     trust_me_else_fail,
-    put_value(x(1),0),
+    allocate(1),
+    get_variable(y(0),1),
+    put_integer(8,0),
+    put_atom('$no_ball$',1),
+    call('$sys_var_put'/2),
+    put_value(y(0),0),
+    deallocate,
     execute('$catch_fail_now'/1)]).
 
 
-predicate('$trail_handler'/1,117,static,private,monofile,built_in,[
+predicate('$trail_handler'/1,118,static,private,monofile,built_in,[
     try_me_else(1),
     proceed,
 
@@ -177,7 +183,7 @@ label(1),
     fail]).
 
 
-predicate('$catch_sync_for_fail_at'/1,126,static,private,monofile,built_in,[
+predicate('$catch_sync_for_fail_at'/1,127,static,private,monofile,built_in,[
     allocate(2),
     get_variable(y(0),0),
     put_integer(7,0),
@@ -189,7 +195,7 @@ predicate('$catch_sync_for_fail_at'/1,126,static,private,monofile,built_in,[
     execute('$$catch_sync_for_fail_at/1_$aux1'/2)]).
 
 
-predicate('$$catch_sync_for_fail_at/1_$aux1'/2,126,static,private,monofile,local,[
+predicate('$$catch_sync_for_fail_at/1_$aux1'/2,127,static,private,monofile,local,[
     pragma_arity(3),
     get_current_choice(x(2)),
     try_me_else(1),
@@ -207,10 +213,11 @@ predicate('$$catch_sync_for_fail_at/1_$aux1'/2,126,static,private,monofile,local
 
 label(1),
     trust_me_else_fail,
+    put_value(x(1),0),
     execute('$catch_fail_now'/1)]).
 
 
-predicate('$catch_fail_now'/1,138,static,private,monofile,built_in,[
+predicate('$catch_fail_now'/1,139,static,private,monofile,built_in,[
     allocate(0),
     call('$set_current_B'/1),
     fail]).
diff --git a/src/BipsPl/top_level.wam b/src/BipsPl/top_level.wam
index 621a397..710a344 100644
--- a/src/BipsPl/top_level.wam
+++ b/src/BipsPl/top_level.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: top_level.pl
-% hash: 64ce34cba1e927297465d7479f4aa2e802557db5  top_level.pl
+% hash: b7727a30c3295060f3fb98933d6b3b6a32e00e3d  top_level.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/top_level.pl').
@@ -993,11 +993,11 @@ predicate('$read_return'/0,333,static,private,monofile,built_in,[
 predicate('$read_return'/1,341,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
-    try_me_else(12),
+    try_me_else(14),
     switch_on_term(2,fail,1,fail,fail),
 
 label(1),
-    switch_on_integer([(10,3),(13,5),(97,7),(59,9),(32,11)]),
+    switch_on_integer([(10,3),(13,5),(-1,7),(97,9),(59,11),(32,13)]),
 
 label(2),
     try_me_else(4),
@@ -1017,6 +1017,13 @@ label(6),
     retry_me_else(8),
 
 label(7),
+    get_integer(-1,0),
+    proceed,
+
+label(8),
+    retry_me_else(10),
+
+label(9),
     get_integer(97,0),
     put_atom('$all_solutions',0),
     put_atom(t,2),
@@ -1024,10 +1031,10 @@ label(7),
     cut(x(1)),
     fail,
 
-label(8),
-    retry_me_else(10),
+label(10),
+    retry_me_else(12),
 
-label(9),
+label(11),
     allocate(1),
     get_integer(59,0),
     get_variable(y(0),1),
@@ -1038,10 +1045,10 @@ label(9),
     cut(y(0)),
     fail,
 
-label(10),
+label(12),
     trust_me_else_fail,
 
-label(11),
+label(13),
     allocate(1),
     get_integer(32,0),
     get_variable(y(0),1),
@@ -1052,7 +1059,7 @@ label(11),
     cut(y(0)),
     fail,
 
-label(12),
+label(14),
     trust_me_else_fail,
     allocate(0),
     put_atom(top_level_output,0),
@@ -1064,7 +1071,7 @@ label(12),
     execute('$read_return'/0)]).
 
 
-predicate('$exec_cmd_line_consult_files'/1,366,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_consult_files'/1,368,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(6),
@@ -1100,7 +1107,7 @@ label(6),
     proceed]).
 
 
-predicate('$exec_cmd_consult_file'/1,380,static,private,monofile,built_in,[
+predicate('$exec_cmd_consult_file'/1,382,static,private,monofile,built_in,[
     allocate(3),
     get_variable(y(0),0),
     put_variable(y(1),0),
@@ -1129,11 +1136,11 @@ predicate('$exec_cmd_consult_file'/1,380,static,private,monofile,built_in,[
     fail]).
 
 
-predicate('$exec_cmd_line_consult_file'/1,390,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_consult_file'/1,392,static,private,monofile,built_in,[
     proceed]).
 
 
-predicate('$exec_cmd_line_entry_goals'/1,395,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_entry_goals'/1,397,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(1),
     get_list(0),
@@ -1149,7 +1156,7 @@ label(1),
     proceed]).
 
 
-predicate('$exec_cmd_line_entry_goal'/1,406,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_entry_goal'/1,408,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1172,11 +1179,11 @@ label(1),
     proceed]).
 
 
-predicate('$exec_cmd_line_goal'/1,418,static,private,monofile,built_in,[
+predicate('$exec_cmd_line_goal'/1,420,static,private,monofile,built_in,[
     execute('$$exec_cmd_line_goal/1_$aux1'/1)]).
 
 
-predicate('$$exec_cmd_line_goal/1_$aux1'/1,418,static,private,monofile,local,[
+predicate('$$exec_cmd_line_goal/1_$aux1'/1,420,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -1206,7 +1213,7 @@ label(1),
     execute(format/3)]).
 
 
-predicate('$exec_cmd1'/1,427,static,private,monofile,built_in,[
+predicate('$exec_cmd1'/1,429,static,private,monofile,built_in,[
     allocate(1),
     put_variable(y(0),1),
     put_structure(end_of_term/1,3),
@@ -1224,7 +1231,7 @@ predicate('$exec_cmd1'/1,427,static,private,monofile,built_in,[
     execute('$call'/4)]).
 
 
-predicate('$exec_cmd_err'/2,435,static,private,monofile,built_in,[
+predicate('$exec_cmd_err'/2,437,static,private,monofile,built_in,[
     put_list(2),
     unify_local_value(x(0)),
     unify_list,
-- 
2.43.0


From da42498af3292808d7f81986397b4de48b931699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 81/91] fix: the clauses a term_expansion/2 list defines were
 swapped when the first one starts a predicate

---
 src/Pl2Wam/read_file.pl  | 12 +++++------
 src/Pl2Wam/read_file.wam | 44 ++++++++++++++++++++--------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/Pl2Wam/read_file.pl b/src/Pl2Wam/read_file.pl
index ea57446..04bdab2 100644
--- a/src/Pl2Wam/read_file.pl
+++ b/src/Pl2Wam/read_file.pl
@@ -437,17 +437,17 @@ get_file_name([of(PlFile, _, _)|_] + _, PlFile).
 
 
 
-get_next_clause(Pred, N, SrcCl) :-
-	retract(buff_raw_clause(Cl, Where)), !,
-	g_assign(where, Where),
-	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
-
-
 get_next_clause(Pred, N, SrcCl) :-
 	retract(buff_src_clause(Pred, N, SrcCl)), !,
 	SrcCl = Where + _,
 	g_assign(where, Where).
 
+
+get_next_clause(Pred, N, SrcCl) :-
+	retract(buff_raw_clause(Cl, Where)), !,
+	g_assign(where, Where),
+	get_next_clause2(Cl, Where, [], Pred, N, SrcCl).
+
 get_next_clause(Pred, N, SrcCl) :-
 	g_read(open_file_stack, OpenFileStack),
 	OpenFileStack = [of(_, Stream, _)|_],
diff --git a/src/Pl2Wam/read_file.wam b/src/Pl2Wam/read_file.wam
index ea8947c..571eabc 100644
--- a/src/Pl2Wam/read_file.wam
+++ b/src/Pl2Wam/read_file.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: read_file.pl
-% hash: c294b76674ac96cbf39452d97f571e115e7358e1  read_file.pl
+% hash: 84ec3c2231a817ab065205299ed33b1179599c1b  read_file.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/read_file.pl').
@@ -1034,6 +1034,27 @@ predicate(get_next_clause/3,440,static,private,monofile,global,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
+    allocate(2),
+    get_variable(y(0),2),
+    get_variable(x(2),0),
+    get_variable(y(1),3),
+    put_structure(buff_src_clause/3,0),
+    unify_local_value(x(2)),
+    unify_local_value(x(1)),
+    unify_local_value(y(0)),
+    call(retract/1),
+    cut(y(1)),
+    put_value(y(0),0),
+    get_structure((+)/2,0),
+    unify_variable(x(1)),
+    unify_void(1),
+    put_atom(where,0),
+    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
+    deallocate,
+    proceed,
+
+label(1),
+    retry_me_else(2),
     allocate(6),
     get_variable(y(0),0),
     get_variable(y(1),1),
@@ -1056,27 +1077,6 @@ predicate(get_next_clause/3,440,static,private,monofile,global,[
     deallocate,
     execute(get_next_clause2/6),
 
-label(1),
-    retry_me_else(2),
-    allocate(2),
-    get_variable(y(0),2),
-    get_variable(x(2),0),
-    get_variable(y(1),3),
-    put_structure(buff_src_clause/3,0),
-    unify_local_value(x(2)),
-    unify_local_value(x(1)),
-    unify_local_value(y(0)),
-    call(retract/1),
-    cut(y(1)),
-    put_value(y(0),0),
-    get_structure((+)/2,0),
-    unify_variable(x(1)),
-    unify_void(1),
-    put_atom(where,0),
-    call_c('Pl_Blt_G_Assign',[fast_call],[x(0),x(1)]),
-    deallocate,
-    proceed,
-
 label(2),
     trust_me_else_fail,
     allocate(9),
-- 
2.43.0


From 893a75f17ade3f3373599ad67cc824c69e41d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 82/91] fix: closing the stream that a failed read_from_codes/2
 left open freed the global buffer

---
 src/BipsPl/stream_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 15019ae..437dd5a 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1486,7 +1486,8 @@ Pl_Close_Input_Term_Stream_1(WamWord sora_word)
   if (type != TERM_STREAM_ATOM)
     {
       str_stream = pstm->file;
-      Free(str_stream->buff);
+      if (str_stream->buff != pl_glob_buff) /* e.g. left open by read_from_codes/2 */
+	Free(str_stream->buff);
     }
 
   Pl_Delete_Str_Stream(stm);
-- 
2.43.0


From 1eaa0d06144f958a038a79777250ad197232c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 83/91] fix: a file name longer than the system limit
 overflowed the buffers of the absolute path computation

---
 src/EnginePl/os_path.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/EnginePl/os_path.c b/src/EnginePl/os_path.c
index a927eb6..3c3b2f9 100644
--- a/src/EnginePl/os_path.c
+++ b/src/EnginePl/os_path.c
@@ -464,7 +464,8 @@ Pl_Set_Working_Dir(char *path)
  *                                                                         *
  * del_trail_slash: TRUE: remove ending / (usually wanted behavior)        *
  *                  FALSE: keep it (we can see the user wanted a directory)*
- * returns an absolute file name (in a static buffer: buff1 or buff2).     *
+ * returns an absolute file name (in a static buffer: buff1 or buff2) or    *
+ * NULL on error (unknown user, empty or too long path,...).               *
  *-------------------------------------------------------------------------*/
 #ifdef __GNUC__
 #pragma GCC diagnostic push
@@ -484,12 +485,18 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
   char c;
   Bool add_slash = FALSE;
 
+  /* a path must fit in a buffer keeping a room for a last / and the \0 */
+#define MAX_PATH_STRLEN (MAXPATHLEN - 2)
+
 #define SWAP_SRC_DST { char *tmp = src; src = dst; dst = tmp; }
 
   /* --- Expand $VARNAME (and %VARNAME% under Windows) --- */
   dst = buff1;
   while ((*dst++ = *src))
     {
+      if (dst - buff1 > MAX_PATH_STRLEN)
+	return NULL;
+
       c = *src++;
       if (c == '$'
 #if defined(_WIN32) || defined(__CYGWIN__)
@@ -499,7 +506,11 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
         {
           p = dst;
           while (isalnum(*src) || *src == '_')
-            *dst++ = *src++;
+	    {
+	      if (dst - buff1 >= MAX_PATH_STRLEN)
+		return NULL;
+	      *dst++ = *src++;
+	    }
 #if defined(_WIN32) || defined(__CYGWIN__)
           if (c == '%' && *src != '%')
             continue;
@@ -509,6 +520,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
           if (q)
             {
               p--;
+	      if ((p - buff1) + strlen(q) > MAX_PATH_STRLEN)
+		return NULL;
               strcpy(p, q);
               dst = p + strlen(p);
 #if defined(_WIN32) || defined(__CYGWIN__)
@@ -546,7 +559,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 	      return NULL;
 #endif
 	    }
-          sprintf(dst, "%s%s/%s", q, p, src + 1);
+          if (snprintf(dst, MAXPATHLEN, "%s%s/%s", q, p, src + 1) > MAX_PATH_STRLEN)
+	    return NULL;
 	  SWAP_SRC_DST;
         }
 #if defined(__unix__) || defined(__CYGWIN__)
@@ -565,7 +579,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
           *p = src[0];
 
-          sprintf(dst, "%s/%s", pw->pw_dir, p);
+          if (snprintf(dst, MAXPATHLEN, "%s/%s", pw->pw_dir, p) > MAX_PATH_STRLEN)
+	    return NULL;
 	  SWAP_SRC_DST;
         }
 #endif
@@ -610,8 +625,8 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
   if (src[0] != '/')      /* add current directory */
     {
-      sprintf(dst, "%s/%.*s", Pl_Get_Working_Dir(),
-	      MAXPATHLEN, src); /* MAXPATHLEN is to avoid gcc warning */
+      if (snprintf(dst, MAXPATHLEN, "%s/%s", Pl_Get_Working_Dir(), src) > MAX_PATH_STRLEN)
+	return NULL;
       SWAP_SRC_DST;
     }
 
-- 
2.43.0


From 30ff29a381ddc7db24f649c566bb1cb8bba44509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 84/91] fix: decompose_file_name/4 overflowed its buffers on a
 name longer than the system limit

---
 src/BipsPl/file_c.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BipsPl/file_c.c b/src/BipsPl/file_c.c
index 508a8b2..ee0d157 100644
--- a/src/BipsPl/file_c.c
+++ b/src/BipsPl/file_c.c
@@ -138,6 +138,9 @@ Pl_Decompose_File_Name_4(WamWord path_word, WamWord dir_word,
   Pl_Check_For_Un_Atom(prefix_word);
   Pl_Check_For_Un_Atom(suffix_word);
 
+  if (strlen(path) >= MAXPATHLEN)
+    Pl_Err_Domain(pl_domain_os_path, path_word);
+
   dir = Pl_Decompose_File_Name(path, FALSE, &base, &suffix);
 
   if (!Pl_Un_String(dir, dir_word))
-- 
2.43.0


From 869c3f3a4bbae48d28b6e103db37f7eba9e900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:21 +0000
Subject: [PATCH 85/91] fix: the message for a command that cannot be executed
 overflowed a local buffer

---
 src/BipsPl/os_interf_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index c0d9df4..ecb374f 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1047,7 +1047,7 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
     Os_Test_Error(status);
   else if (status == -2)
     {
-      sprintf(err, "error trying to execute %s", arg[0]);
+      snprintf(err, sizeof(err), "error trying to execute %s", arg[0]);
       Pl_Err_System(Pl_Create_Allocate_Atom(err));
       return FALSE;
     }
@@ -1150,7 +1150,7 @@ Pl_Exec_5(WamWord cmd_word, WamWord sora_in_word, WamWord sora_out_word,
     Os_Test_Error(pid); /* ENOENT is for Windows */
   if (pid < 0)
     {
-      sprintf(err, "error trying to execute %s (maybe not found)", cmd);
+      snprintf(err, sizeof(err), "error trying to execute %s (maybe not found)", cmd);
       Pl_Err_System(Pl_Create_Allocate_Atom(err));
       return FALSE;
     }
-- 
2.43.0


From 15e2d1b373426edb6dee7abc1711726f2ae4a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:27 +0000
Subject: [PATCH 86/91] fix: a long AF_UNIX address overflowed the socket
 address structure

---
 src/BipsPl/sockets_c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index 48cbbf0..2e6511d 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -274,7 +274,8 @@ Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word)
   if (Functor_Arity(atom_AF_UNIX, 1) == Functor_And_Arity(stc_adr))
     {
       path_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
-      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
+      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL ||
+	  strlen(path_name) >= sizeof(adr_un.sun_path))
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
       adr_un.sun_family = AF_UNIX;
@@ -366,7 +367,8 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
   if (Functor_Arity(atom_AF_UNIX, 1) == Functor_And_Arity(stc_adr))
     {
       path_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
-      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
+      if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL ||
+	  strlen(path_name) >= sizeof(adr_un.sun_path))
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
       adr_un.sun_family = AF_UNIX;
-- 
2.43.0


From 8f8e68004a7589d991e8ac8774320ceed8f1d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 87/91] fix: computing the primes with a vector max above 46340
 wrote before the vector (square overflow)

---
 src/BipsFD/fd_prime_c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BipsFD/fd_prime_c.c b/src/BipsFD/fd_prime_c.c
index e6c5056..2bf2cb7 100644
--- a/src/BipsFD/fd_prime_c.c
+++ b/src/BipsFD/fd_prime_c.c
@@ -134,8 +134,9 @@ Compute_Prime_Range(void)
   i = 2;
   do
     {				/* Sieve of Eratosthenes */
-      for(j = i * i; j <= pl_vec_max_integer; j += i)
-	Vector_Reset_Value(vec, j);
+      if (i <= pl_vec_max_integer / i) /* else i * i is too big (and can overflow) */
+	for(j = i * i; j <= pl_vec_max_integer; j += i)
+	  Vector_Reset_Value(vec, j);
 
       j = i;
       i = Pl_Vector_Next_After(vec, i);
-- 
2.43.0


From bbdcb2ca361cb0e651d1fec23fd1b5f6f8395d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:28 +0000
Subject: [PATCH 88/91] fix: shifting a negative integer to the left was done
 on a signed type (undefined behaviour)

---
 src/BipsPl/arith_inl_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/arith_inl_c.c b/src/BipsPl/arith_inl_c.c
index 6780605..4b513ab 100644
--- a/src/BipsPl/arith_inl_c.c
+++ b/src/BipsPl/arith_inl_c.c
@@ -1018,7 +1018,7 @@ Pl_Fct_Fast_Shl(WamWord x_word, WamWord y_word)
     {
       if (x > (INT_GREATEST_VALUE >> y) || x < (INT_LOWEST_VALUE >> y))
 	Pl_Err_Evaluation(pl_evaluation_int_overflow);
-      z = x << y;
+      z = (PlLong) ((PlULong) x << y); /* x can be negative */
     }
 
   return Tag_INT(z);
-- 
2.43.0


From 24bd82e39456ec687a5d9c350b2ef40d941cdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 89/91] fix: a character escape with a huge code wrapped around
 to a valid character instead of being a syntax error

---
 src/BipsPl/lexer_supp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/lexer_supp.c b/src/BipsPl/lexer_supp.c
index 0af94e5..42b7f28 100644
--- a/src/BipsPl/lexer_supp.c
+++ b/src/BipsPl/lexer_supp.c
@@ -716,7 +716,8 @@ Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
 	  i = (int) (p - f);
 	  if (i >= 16)
 	    i -= 6;
-	  x = x * radix + i;
+	  if (x < 256)		/* else already too big: avoid an overflow */
+	    x = x * radix + i;
 	  Read_Next_Char(pstm, convert);
 	}
 
-- 
2.43.0


From ce16e4923dcb3a3ee803c847613d1a2bd5723e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 90/91] fix: the format/2 error for an invalid ~% directive
 created an atom whose name was in the stack

---
 src/BipsPl/format_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/format_c.c b/src/BipsPl/format_c.c
index d66e821..639482c 100644
--- a/src/BipsPl/format_c.c
+++ b/src/BipsPl/format_c.c
@@ -457,7 +457,7 @@ Format(StmInf *pstm, char *format, WamWord args_word)
 	    c_printf_error:
 	      CLEAN;
 	      Pl_Err_Domain(pl_domain_format_control_sequence,
-			    Tag_ATM(Pl_Create_Atom(buff)));
+			    Tag_ATM(Pl_Create_Allocate_Atom(buff)));
 	    }
 
 
-- 
2.43.0


From 17e7b328b4633731ec56d6c09b816f25b286568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:41 +0000
Subject: [PATCH 91/91] fix: wam2ma and ma2asm overflowed fixed buffers on long
 names (limits raised, too long lines detected)

---
 src/Ma2Asm/ma_parser.c  | 10 ++++++++--
 src/Wam2Ma/wam2ma.c     |  4 ++--
 src/Wam2Ma/wam_parser.c |  8 +++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Ma2Asm/ma_parser.c b/src/Ma2Asm/ma_parser.c
index 00d4e0e..120b550 100644
--- a/src/Ma2Asm/ma_parser.c
+++ b/src/Ma2Asm/ma_parser.c
@@ -59,8 +59,8 @@
  * Constants                       *
  *---------------------------------*/
 
-#define MAX_LINE_LEN               65536
-#define MAX_STR_LEN                32768
+#define MAX_LINE_LEN               1048576 /* a mangled name can be long (see wam2ma.c) */
+#define MAX_STR_LEN                MAX_LINE_LEN
 #define MAX_ARGS                   128
 #define MAX_SWITCH_CASES           1000000
 
@@ -791,6 +791,12 @@ Lexer(void)
       cur_line_no++;
       cur_line_p = cur_line_str;
 
+      if (strlen(cur_line_str) == sizeof(cur_line_str) - 1)
+	{
+	  beg_last_token = cur_line_p;
+	  Syntax_Error("line too long (max: %d)", MAX_LINE_LEN);
+	}
+
       if (keep_source_lines)
         {
           while (isspace(*cur_line_p))
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 080b17a..224ff5e 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -88,8 +88,8 @@
 
 #define DEFAULT_OUTPUT_SUFFIX      ".ma"
 
-#define MAX_PRED_NAME_LENGTH       2048
-#define MAX_MANGLE_LENGTH          MAX_PRED_NAME_LENGTH * 2 + 2 + 16
+#define MAX_PRED_NAME_LENGTH       131072 /* see MAX_STR_LEN in wam_parser.c */
+#define MAX_MANGLE_LENGTH          (MAX_PRED_NAME_LENGTH * 4 + 2 + 16) /* module and name, 2 digits per char */
 #define MAX_LABEL_LENGTH           32
 
 
diff --git a/src/Wam2Ma/wam_parser.c b/src/Wam2Ma/wam_parser.c
index 2c1892c..02152c8 100644
--- a/src/Wam2Ma/wam_parser.c
+++ b/src/Wam2Ma/wam_parser.c
@@ -57,7 +57,7 @@
 
 #define MAX_FCT_ARITY              10
 #define MAX_LINE_LEN               65536
-#define MAX_STR_LEN                32768
+#define MAX_STR_LEN                (2 * MAX_LINE_LEN) /* a character can need 2 (e.g. " is read as \") */
 #define MAX_ARGS                   1000000 /* for big swith_on_... */
 
 
@@ -604,6 +604,12 @@ Lexer(Bool complex_atom)
       cur_line_no++;
       cur_line_p = cur_line_str;
 
+      if (strlen(cur_line_str) == sizeof(cur_line_str) - 1)
+	{
+	  beg_last_token = cur_line_p;
+	  Syntax_Error("line too long (max: %d)", MAX_LINE_LEN);
+	}
+
       if (keep_source_lines)
 	{
 	  while (isspace(*cur_line_p))
-- 
2.43.0


-------------------------------- MODULE Refs --------------------------------
(* Properties that name things outside: symbols of python, paths of files,    *)
(* urls.  In whatever form one is given, the thing it names is what is read,  *)
(* and the text it serializes to names it again.  What is not of the kind     *)
(* declared, or (paths) does not satisfy the condition declared when it is    *)
(* given, is rejected.  The files come and go.                                *)
EXTENDS Values

VARIABLES cfg, v, fs, act
vars == <<cfg, v, fs, act>>

(* ---- python symbols: name, what it is, its own name ---- *)
Sym(n, k, c) == [n |-> n, k |-> k, c |-> c]
Syms == {Sym("vfsym", "module", "vfsym"), Sym("vfsym.sub", "module", "vfsym.sub"), Sym("vfsym.A", "class", "vfsym.A"),
         Sym("vfsym.A.B", "class", "vfsym.A.B"), Sym("vfsym.A.B.m", "function", "vfsym.A.B.m"), Sym("vfsym.A.s", "function", "vfsym.A.s"),
         Sym("vfsym.A.c", "method", "vfsym.A.c"), Sym("vfsym.fun", "function", "vfsym.fun"), Sym("vfsym.sub.fun", "function", "vfsym.sub.fun"),
         Sym("vfsym.alias", "class", "vfsym.A"), Sym("vfsym.sub.up", "function", "vfsym.fun"), Sym("vfsym.ZERO", "value", "vfsym.ZERO"), Sym("vfsym.A.EMPTY", "value", "vfsym.A.EMPTY"),
         Sym("int", "class", "builtins.int"), Sym("builtins.dict", "class", "builtins.dict"), Sym("len", "builtin", "builtins.len"),
         Sym("vfsym.nope", "none", ""), Sym("vfnomod", "none", ""), Sym("vfsym.A.nope.B", "none", ""), Sym("vfsym.sub.A", "none", "")}
Kinds(ty) == CASE ty = "importable" -> {"module", "class", "function", "method", "builtin", "value"}
               [] ty = "module" -> {"module"}
               [] ty = "class" -> {"class"}
               [] ty = "function" -> {"function"}
               [] ty = "method" -> {"method"}
               [] ty = "callable" -> {"class", "function", "method", "builtin"}
SymTypes == {"importable", "module", "class", "function", "method", "callable"}

(* ---- paths: <<base, names>>, base "abs" the scratch folder, "rel" relative to it (the current
        folder), "home" with a tilde ---- *)
Files == {<<"f">>, <<"a b">>, <<"d", "f">>}
Dirs == {<<>>, <<"d">>}
Conds == {"", "exists", "dir", "file", "expand", "expandfile"}
Places == {<<>>, <<"f">>, <<"a b">>, <<"d">>, <<"d", "f">>, <<"no">>, <<"d", "a%20b">>}
Paths == {<<b, p>> : b \in {"abs", "rel", "home"}, p \in Places}
(* the folder of the user is the scratch folder *)
Real(c, x) == IF x[1] = "home" /\ c \notin {"expand", "expandfile"} THEN <<"none">> ELSE <<"there", x[2]>>
IsFile(c, x) == Real(c, x)[1] = "there" /\ x[2] \in fs
IsDir(c, x) == Real(c, x)[1] = "there" /\ x[2] \in Dirs
Meets(c, x) == CASE c = "" -> TRUE [] c = "expand" -> TRUE
                 [] c = "exists" -> IsFile(c, x) \/ IsDir(c, x)
                 [] c = "dir" -> IsDir(c, x)
                 [] c \in {"file", "expandfile"} -> IsFile(c, x)
Expanded(c, x) == IF x[1] = "home" /\ c \in {"expand", "expandfile"} THEN <<"abs", x[2]>> ELSE x

Urls == {"http://h/p?q=1#f", "http://h/a%20b", "file:///t/a%20b", "urn:x:y", "p/q", "#f", "mailto:a@b"}

Cfgs == {[ty |-> t, c |-> "", lazy |-> l] : t \in SymTypes \union {"uri"}, l \in BOOLEAN}
        \union {[ty |-> "path", c |-> c, lazy |-> l] : c \in Conds, l \in BOOLEAN}

Init == cfg = [ty |-> ""] /\ v = None /\ fs = Files /\ act = [op |-> "init", res |-> Ok(None)]
New(c) == /\ cfg.ty = "" /\ cfg' = c /\ UNCHANGED <<v, fs>>
          /\ act' = [op |-> "new", cfg |-> c, res |-> Ok(None)]

Give(ok, how, x, r) ==
  /\ UNCHANGED <<cfg, fs>>
  /\ v' = IF ok THEN r ELSE None
  /\ act' = [op |-> "give", how |-> how, x |-> x, res |-> IF ok THEN Ok(r) ELSE Err("invalid")]
GiveSym == /\ cfg.ty \in SymTypes
           /\ \E s \in Syms, how \in {"text", "object"} :
                /\ how = "object" => s.k # "none"
                /\ ~(cfg.ty = "importable" /\ s.k = "none")      \* kept as a text: left open
                /\ Give(s.k \in Kinds(cfg.ty), how, s.n, <<"sym", s.c>>)
GivePath == /\ cfg.ty = "path"
            /\ \E x \in Paths, how \in {"text", "object", "url", "quoted"} :
                 /\ how = "url" => x[1] = "abs"
                 /\ how = "quoted" => x[1] = "rel" /\ x[2] # <<>>
                 \* giving what is held again is not a change: it need not be looked at again
                 /\ ~(cfg.lazy /\ ~Meets(cfg.c, x) /\ v = <<"path", Expanded(cfg.c, x)>>)
                 /\ Give(Meets(cfg.c, x), how, x, <<"path", Expanded(cfg.c, x)>>)
GiveUri == /\ cfg.ty = "uri"
           /\ \/ \E u \in Urls, how \in {"text", "url"} : Give(TRUE, how, u, <<"uri", u>>)
              \/ \E x \in {p \in Paths : p[1] = "abs"} : Give(TRUE, "path", x, <<"urlof", x>>)
(* a file disappears, or comes back: what was read stays what it was *)
Flip(f) == /\ cfg.ty = "path" /\ UNCHANGED <<cfg, v>> /\ f \in {<<"f">>, <<"d", "f">>}
           /\ fs' = IF f \in fs THEN fs \ {f} ELSE fs \union {f}
           /\ act' = [op |-> "flip", f |-> f, there |-> f \in fs', res |-> Ok(None)]
Get == /\ v # None /\ UNCHANGED <<cfg, v, fs>> /\ act' = [op |-> "get", res |-> Ok(v)]
IsValue == v \in {<<"sym", "vfsym.ZERO">>, <<"sym", "vfsym.A.EMPTY">>}
Ser == /\ v # None /\ UNCHANGED <<cfg, v, fs>> /\ ~IsValue
       /\ act' = [op |-> "ser", res |-> Ok(v)]
(* read again from the text *)
Reload == /\ v # None /\ UNCHANGED <<cfg, fs>> /\ ~IsValue
          /\ LET ok == cfg.ty = "path" => Meets(cfg.c, v[2]) IN
             /\ v' = IF ok THEN v ELSE None
             /\ act' = [op |-> "reload", res |-> IF ok THEN Ok(v) ELSE Err("invalid")]

Next == \/ \E c \in Cfgs : New(c)
        \/ GiveSym \/ GivePath \/ GiveUri \/ (\E f \in Files : Flip(f)) \/ Get \/ Ser \/ Reload
Spec == Init /\ [][Next]_vars
St == [cfg |-> cfg, v |-> v, fs |-> fs]
View == St
EmitT == PrintT(ToJson([s |-> [cfg |-> cfg, v |-> v, fs |-> [set |-> fs]], a |-> act', t |-> [cfg |-> cfg', v |-> v', fs |-> [set |-> fs']]]))

(* what is held was of the kind asked for *)
Kind == v # None => CASE cfg.ty \in SymTypes -> \E s \in Syms : s.c = v[2] /\ s.k \in Kinds(cfg.ty)
                      [] cfg.ty = "path" -> v[1] = "path"
                      [] OTHER -> v[1] \in {"uri", "urlof"}
=============================================================================

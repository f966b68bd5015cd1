------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* File-system trees and what backpak's commands mean in terms of them.    *)
(*                                                                         *)
(* A tree is a function from paths (strings with "/" between components)   *)
(* to nodes [k, c, z, m, u, g, t, a, x]: kind ("f" file, "d" directory,    *)
(* "l" symlink, "s" special, "?" unreadable), content, size, permission    *)
(* bits, owner, group, modification time, access time, symlink target.     *)
(* Nothing here knows about chunks, packs or processes.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Prefixed(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Below(d, p) == Prefixed(d \o "/", p)
AtOrBelow(d, p) == p = d \/ Below(d, p)

RECURSIVE LastSlash(_, _)
LastSlash(p, i) == IF i = 0 THEN 0 ELSE IF SubSeq(p, i, i) = "/" THEN i ELSE LastSlash(p, i - 1)
Base(p) == SubSeq(p, LastSlash(p, Len(p)) + 1, Len(p))
Parent(p) == LET i == LastSlash(p, Len(p)) IN IF i = 0 THEN "" ELSE SubSeq(p, 1, i - 1)
RECURSIVE FirstSlash(_, _)
FirstSlash(p, i) == IF i > Len(p) THEN i ELSE IF SubSeq(p, i, i) = "/" THEN i ELSE FirstSlash(p, i + 1)
Top(p) == SubSeq(p, 1, FirstSlash(p, 1) - 1)
Rest(p) == SubSeq(p, FirstSlash(p, 1), Len(p))      \* "" or "/..."

(***************************************************************************)
(* Skip expressions. The driver turns these into (escaped, anchored)       *)
(* regular expressions; this is their meaning.                             *)
(***************************************************************************)
Contains(s, lit) == \E i \in 1..(Len(s) - Len(lit) + 1) : SubSeq(s, i, i + Len(lit) - 1) = lit
EndsWith(s, lit) == Len(s) >= Len(lit) /\ SubSeq(s, Len(s) - Len(lit) + 1, Len(s)) = lit
Matches(pat, p) ==
  CASE pat.kind = "sub" -> Contains(p, pat.lit)
    [] pat.kind = "end" -> EndsWith(p, pat.lit)
    [] pat.kind = "beg" -> p = pat.lit \/ Prefixed(pat.lit, p)
    [] pat.kind = "all" -> p = pat.lit
Skips(pats, p) == \E i \in DOMAIN pats : Matches(pats[i], p)

(***************************************************************************)
(* What a backup of `paths` of file system F records.                      *)
(***************************************************************************)
BackupTree(F, paths, pats) ==
  LET hidden == {q \in DOMAIN F : F[q].k = "s" \/ (pats # <<>> /\ Skips(pats, q))}
      part(P) ==
        LET hid == {h \in hidden : AtOrBelow(P, h)}
            qs == {q \in DOMAIN F : AtOrBelow(P, q) /\ ~\E h \in hid : AtOrBelow(h, q)}
            b == Base(P)
        IN  [r \in {b \o SubSeq(q, Len(P) + 1, Len(q)) : q \in qs} |-> F[P \o SubSeq(r, Len(b) + 1, Len(r))]]
      RECURSIVE all(_)
      all(S) == IF S = {} THEN <<>> ELSE LET P == CHOOSE P \in S : TRUE IN part(P) @@ all(S \ {P})
  IN  all(paths)

(* The paths a backup looks at (to say which must be readable). *)
Visited(F, paths, pats) ==
  LET hidden == {q \in DOMAIN F : pats # <<>> /\ Skips(pats, q)}
  IN  {q \in DOMAIN F : \E P \in paths : AtOrBelow(P, q) /\ ~\E h \in hidden : AtOrBelow(P, h) /\ AtOrBelow(h, q)}

(* A recorded tree without what matches (paths in it are relative). *)
SkipTree(T, pats) ==
  LET hidden == {q \in DOMAIN T : Skips(pats, q)}
  IN  [q \in {q \in DOMAIN T : ~\E h \in hidden : AtOrBelow(h, q)} |-> T[q]]

(* Where two trees differ. *)
TreeDiff(T, E) ==
  {p \in DOMAIN T \cup DOMAIN E : p \notin DOMAIN T \/ p \notin DOMAIN E \/ T[p] # E[p]}

(***************************************************************************)
(* diff                                                                    *)
(***************************************************************************)
Suffix(n) == IF n.k = "d" THEN "/" ELSE IF n.k = "l" THEN " -> " \o n.x ELSE ""
Line(code, p, n) == code \o p \o Suffix(n)
MetaEq(m, n) == m.u = n.u /\ m.g = n.g /\ m.m = n.m /\ m.t = n.t /\ m.a = n.a /\ m.z = n.z
MetaCode(m, n) == IF m.u # n.u \/ m.g # n.g THEN "O " ELSE IF m.m # n.m THEN "P "
                  ELSE IF m.t # n.t THEN "T " ELSE IF m.a # n.a THEN "A " ELSE "M "

DiffLines(A, B, meta) ==
  {Line("- ", p, A[p]) : p \in {p \in DOMAIN A : p \notin DOMAIN B \/ A[p].k # B[p].k}} \cup
  {Line("+ ", p, B[p]) : p \in {p \in DOMAIN B : p \notin DOMAIN A \/ A[p].k # B[p].k}} \cup
  LET both == {p \in DOMAIN A \cap DOMAIN B : A[p].k = B[p].k}
      files == {p \in both : A[p].k = "f" /\ A[p].c # B[p].c}
      links == {p \in both : A[p].k = "l" /\ A[p].x # B[p].x}
  IN  {Line("C ", p, A[p]) : p \in files} \cup
      {Line("- ", p, A[p]) : p \in links} \cup {Line("+ ", p, B[p]) : p \in links} \cup
      (IF meta THEN {Line(MetaCode(A[p], B[p]), p, B[p]) : p \in {p \in both \ (files \cup links) : ~MetaEq(A[p], B[p])}}
       ELSE {})

LsLines(T) == {Line("", p, T[p]) : p \in DOMAIN T}

(***************************************************************************)
(* restore: Old is what the target holds (paths named as in the snapshot), *)
(* New the snapshot's tree.                                                *)
(***************************************************************************)
Visible(F) == [p \in {p \in DOMAIN F : F[p].k # "s"} |-> F[p]]

(* Files whose type, size and mtime are those recorded count as unchanged. *)
Assumed(Old, New) ==
  [p \in DOMAIN Old |-> IF p \in DOMAIN New /\ Old[p].k = "f" /\ New[p].k = "f" /\ Old[p].z = New[p].z /\ Old[p].t = New[p].t
                        THEN [Old[p] EXCEPT !.c = New[p].c] ELSE Old[p]]

Blocked(Old, New, del) ==
  {p \in DOMAIN Old \cap DOMAIN New : ~del /\ Old[p].k = "d" /\ New[p].k # "d"}

RestoreLines(Old0, New, del, meta, Map(_)) ==
  LET Old == Assumed(Old0, New)
      blk == Blocked(Old, New, del)
      L(code, p, n) == code \o Map(p) \o Suffix(n)
      gone == {p \in DOMAIN Old : p \notin DOMAIN New}
      both == {p \in DOMAIN Old \cap DOMAIN New : Old[p].k = New[p].k}
      typed == {p \in DOMAIN Old \cap DOMAIN New : Old[p].k # New[p].k} \ blk
      files == {p \in both : Old[p].k = "f" /\ Old[p].c # New[p].c}
      links == {p \in both : Old[p].k = "l" /\ Old[p].x # New[p].x}
  IN  {L("+ ", p, New[p]) : p \in (DOMAIN New \ DOMAIN Old) \cup typed \cup links} \cup
      {L("- ", p, Old[p]) : p \in typed \cup links \cup (IF del THEN gone ELSE {})} \cup
      {L("C ", p, Old[p]) : p \in files} \cup
      (IF meta THEN {L(MetaCode(Old[p], New[p]), p, New[p]) :
                        p \in {p \in both \ (files \cup links) : ~MetaEq(Old[p], New[p])}}
       ELSE {})

(* Which paths are not as they must be afterwards. *)
RestoreWrong(Old0, New, Post, del, times, perms) ==
  LET Old == Assumed(Visible(Old0), New)
      blk == Blocked(Old, New, del)
      kept == {p \in DOMAIN Old0 : p \notin DOMAIN New /\ (~del \/ Old0[p].k = "s")}
      want == kept \cup DOMAIN New
      \* entries of a directory came or went: its own mtime moved
      moved(p) == \E q \in DOMAIN Old \cup DOMAIN New : Parent(q) = p /\
                     \/ q \in DOMAIN New \ DOMAIN Old
                     \/ (q \in DOMAIN Old \ DOMAIN New /\ del)
                     \/ (q \in DOMAIN Old \cap DOMAIN New /\ q \notin blk /\
                          (Old[q].k # New[q].k \/ (Old[q].k = "l" /\ Old[q].x # New[q].x)))
      old(p) == p \in DOMAIN Old /\ Old[p].k = New[p].k
      same(p) == old(p) /\ (Old[p].k = "f" => Old[p].c = New[p].c) /\ (Old[p].k = "l" => Old[p].x = New[p].x)
      bad == {p \in want \cup DOMAIN Post :
               ~ IF p \notin want THEN FALSE
                 ELSE IF p \notin DOMAIN Post THEN FALSE
                 ELSE IF p \in kept \cup blk
                      THEN [Post[p] EXCEPT !.a = ""] = [Old0[p] EXCEPT !.a = ""]
                 ELSE /\ Post[p].k = New[p].k
                      /\ New[p].k = "f" => (Post[p].c = IF same(p) THEN Old0[p].c ELSE New[p].c)
                      /\ New[p].k = "l" => Post[p].x = New[p].x
                      /\ (New[p].k # "l" /\ perms) => Post[p].m = New[p].m
                      /\ (New[p].k # "l" /\ ~perms /\ old(p)) => Post[p].m = Old[p].m
                      /\ (IF New[p].k = "l" THEN same(p) ELSE old(p)) => Post[p].u = Old[p].u /\ Post[p].g = Old[p].g
                      /\ (New[p].k # "l" /\ times) => Post[p].t = New[p].t
                      /\ (~times /\ New[p].k \in {"f", "l"} /\ same(p)) => Post[p].t = Old[p].t
                      /\ (~times /\ New[p].k = "d" /\ old(p) /\ ~moved(p)) => Post[p].t = Old[p].t }
  IN  bad
=============================================================================

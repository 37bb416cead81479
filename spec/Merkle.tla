------------------------------- MODULE Merkle -------------------------------
(* Merkle roots and proofs over a symbolic hash: H(l, r) is the pair itself, *)
(* so two roots are equal only when they are built alike.  The tree is the   *)
(* complete binary tree whose leaves, from the right end, are the list; any  *)
(* shape that depends on the length alone would do.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE roots      \* set of <<list, root>> seen so far
vars == roots

H(a, b) == <<a, b>>
NoRoot == <<>>
RECURSIVE Node(_, _)
(* nodes 1..2n-1, node i has children 2i and 2i+1, leaves are n..2n-1 *)
Node(xs, i) == IF i >= Len(xs) THEN <<xs[i - Len(xs) + 1]>> ELSE H(Node(xs, 2 * i), Node(xs, 2 * i + 1))
Root(xs) == IF xs = <<>> THEN NoRoot ELSE Node(xs, 1)
RECURSIVE Path(_, _)
Path(xs, i) == IF i = 1 THEN <<>>
               ELSE << [right |-> i % 2 = 0, node |-> Node(xs, IF i % 2 = 0 THEN i + 1 ELSE i - 1)] >> \o Path(xs, i \div 2)
Proof(xs, p) == Path(xs, Len(xs) + p - 1)
RECURSIVE Fold(_, _)
Fold(x, path) == IF path = <<>> THEN x
                 ELSE Fold(IF path[1].right THEN H(x, path[1].node) ELSE H(path[1].node, x), Tail(path))

Init == roots = {}
(* a root fits when equal lists have equal roots and lists that differ in any element, or in the order, do not *)
Fits(xs, r) == \A p \in roots : (p[1] = xs) <=> (p[2] = r)
Commit(xs, r) == Fits(xs, r) /\ roots' = roots \cup {<<xs, r>>}

Binding == \A p, q \in roots : (p[1] = q[1]) <=> (p[2] = q[2])
Sound(xs, elems) == \A i \in 1..Len(xs) : \A x \in elems : (Fold(<<x>>, Proof(xs, i)) = Root(xs)) <=> (x = xs[i])
=============================================================================

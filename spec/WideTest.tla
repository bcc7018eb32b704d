------------------------------ MODULE WideTest ------------------------------
(***************************************************************************)
(* Wide numbers are naturals, and the arithmetic of shapes over them is    *)
(* the one of Tiling wherever both apply.  A state is a pair of numbers    *)
(* and a pair of extents with their tiles.                                 *)
(***************************************************************************)
EXTENDS Tiling, Wide
RECURSIVE W(_)
W(n) == IF n = 0 THEN <<>> ELSE <<n % WB>> \o W(n \div WB)
Ws(s) == [i \in 1..Len(s) |-> W(s[i])]
VARIABLES a, b, sh, ti
Pts == (0..3) \cup {9999, 10000, 10001, 19999, 46340, 123456, 10^8 - 1, 10^8, 10^9 + 7}
Init == \/ a \in Pts /\ b \in Pts /\ sh = <<1, 1>> /\ ti = <<1, 1>>
        \/ a = 0 /\ b = 0 /\ sh \in {<<n, m>> : n, m \in {1, 3, 5}} /\ ti \in {<<n, m>> : n, m \in {1, 2, 6}}
Next == UNCHANGED <<a, b, sh, ti>>
Spec == Init /\ [][Next]_<<a, b, sh, ti>>
Numbers ==
  /\ WIsNat(W(a)) /\ WAdd(W(a), W(b)) = W(a + b) /\ WLess(W(a), W(b)) = (a < b)
  /\ (b < 5 => WMul(W(a), W(b)) = WMul(W(b), W(a)))
  /\ ((a < 46341 /\ b < 46341) => WMul(W(a), W(b)) = W(a * b))
  \* laws where the product does not fit into 32 bits
  /\ WMul(W(a), WAdd(W(b), WOne)) = WAdd(WMul(W(a), W(b)), W(a))
  /\ (a > 0 => WLess(WMul(W(a), W(b)), WMul(W(a), WAdd(W(b), WOne))))
Shapes ==
  LET g == GridOf(sh, ti)  w == Ws(sh)  v == Ws(ti)
      o == [ndim |-> 2, sh |-> w, ti |-> v, n |-> W(Prod(sh)), stride |-> Ws(StrideOf(sh)), grid |-> Ws(g), gn |-> W(Prod(g)),
            gstride |-> Ws(StrideOf(g)), left |-> Ws(TileShape(sh, ti, LastTile(sh, ti))),
            ms |-> LET m == MatrixShape(sh) IN [i \in 1..3 |-> Ws(m[i])]]
  IN  /\ WTraits(o, w, v)
      /\ ~WTraits([o EXCEPT !.grid[1] = WAdd(@, WOne)], w, v) /\ ~WTraits([o EXCEPT !.left[2] = WAdd(@, WOne)], w, v)
      /\ \A p \in 0..(Prod(sh) - 1) :
           LET ix == UnravelIx(p, sh)
           IN  /\ WAnswer(0, w, v, o.grid, Ws(ix), [res |-> "ok", r |-> <<W(p)>>])
               /\ \A q \in 0..(Prod(sh) - 1) :
                    WAnswer(1, w, v, o.grid, <<W(q)>>, [res |-> "ok", r |-> Ws(ix)]) <=> (p = q)
      /\ \A p \in 0..(Prod(g) - 1) :
           LET k == UnravelIx(p, g)
           IN  \A x \in 1..5, y \in 1..5 :
                 WAnswer(3, w, v, o.grid, Ws(k), [res |-> "ok", r |-> Ws(<<x, y>>)]) <=> (<<x, y>> = TileShape(sh, ti, k))
=============================================================================

---- MODULE Wrapper ----
(* Wrapper objects of an elemental function.  A slot is a variable of the user that holds a wrapper by value or a shared
   holder; every slot names a body: the function description and a table of memory pools (size, released ids).
   Copying by value makes a body with the same description and its own, empty table; assigning by value replaces the
   description and keeps the table; moving hands the body over; a holder shares the body.
   Shared = TRUE is the defect "a copy by value shares the table".                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxOps, Shared
VARIABLES slot,   \* slot -> 0 or a body
          body,   \* sequence of [f, tab]; f = description number, tab = number of its table
          tab,    \* sequence of [size, free]
          held,   \* set of <<body, id>> pools somebody uses
          nops
vars == <<slot, body, tab, held, nops>>
Init == slot = [s \in Slots |-> 0] /\ body = <<>> /\ tab = <<>> /\ held = {} /\ nops = 0
Step == nops < MaxOps /\ nops' = nops + 1
NewTab == tab' = Append(tab, [size |-> 0, free |-> {}])
Make(s) == /\ Step /\ \E f \in 1..2 : body' = Append(body, [f |-> f, tab |-> Len(tab) + 1])
           /\ NewTab /\ slot' = [slot EXCEPT ![s] = Len(body) + 1] /\ UNCHANGED held
Copy(s, t) == /\ Step /\ slot[s] # 0
              /\ body' = Append(body, [f |-> body[slot[s]].f, tab |-> IF Shared THEN body[slot[s]].tab ELSE Len(tab) + 1])
              /\ NewTab /\ slot' = [slot EXCEPT ![t] = Len(body) + 1] /\ UNCHANGED held
Assign(s, t) == /\ Step /\ slot[s] # 0 /\ slot[t] # 0 /\ slot[s] # slot[t]
                /\ body' = [body EXCEPT ![slot[t]].f = body[slot[s]].f] /\ UNCHANGED <<slot, tab, held>>
Share(s, t) == /\ Step /\ slot[s] # 0 /\ slot' = [slot EXCEPT ![t] = slot[s]] /\ UNCHANGED <<body, tab, held>>
Take(s) == /\ Step /\ slot[s] # 0
           /\ LET b == slot[s]  T == body[b].tab  free == tab[T].free IN
              \/ free = {} /\ tab[T].size < 2 /\ tab' = [tab EXCEPT ![T].size = @ + 1] /\ held' = held \cup {<<b, tab[T].size>>}
              \/ \E id \in free : tab' = [tab EXCEPT ![T].free = @ \ {id}] /\ held' = held \cup {<<b, id>>}
           /\ UNCHANGED <<slot, body>>
Give(s) == /\ Step /\ slot[s] # 0
           /\ \E h \in held : h[1] = slot[s] /\ held' = held \ {h} /\ tab' = [tab EXCEPT ![body[h[1]].tab].free = @ \cup {h[2]}]
           /\ UNCHANGED <<slot, body>>
Clear(s) == /\ Step /\ slot[s] # 0 /\ tab' = [tab EXCEPT ![body[slot[s]].tab] = [size |-> 0, free |-> {}]]
            /\ held' = {h \in held : h[1] # slot[s]} /\ UNCHANGED <<slot, body>>
Next == \E s \in Slots : Make(s) \/ Take(s) \/ Give(s) \/ Clear(s) \/ \E t \in Slots \ {s} : Copy(s, t) \/ Assign(s, t) \/ Share(s, t)
Spec == Init /\ [][Next]_vars
\* what is used exists and is not on the list of released pools (with a shared table a copy that clears breaks the other)
UsedExists == \A h \in held : LET T == tab[body[h[1]].tab] IN h[2] < T.size /\ h[2] \notin T.free
====

------------------------------- MODULE TmpFile -------------------------------
(***************************************************************************)
(* Arrays on disk.  An open array has a file of its own in the configured  *)
(* directory; an element holds what was last written to it, through the    *)
(* file or through the mapping.  Closing removes the file unless told to   *)
(* keep it, and so does an operation that fails.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES obj,     \* array -> [open, map, data, pos, file]   (an element or position that is not known: Unknown)
          files,   \* file -> [dir, n, sz]: elements and their size in bytes
          conf     \* [gp, env]: where files are to go ("-": not set)
tvars == <<obj, files, conf>>
Unknown == -999
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Dir == IF conf.gp # "-" THEN conf.gp ELSE IF conf.env # "-" THEN conf.env ELSE "cwd"
Exists(d) == d # "missing"
Closed == [open |-> FALSE, map |-> FALSE, data |-> <<>>, pos |-> 0, file |-> 0]
Bytes(i) == IF i % 2 = 1 THEN 4 ELSE 16
Size(i) == Len(obj[i].data)
Blank(n) == [k \in 1..n |-> Unknown]
Fresh(t) == t \notin DOMAIN files /\ t > 0

TInit == obj = <<>> /\ files = <<>> /\ conf = [gp |-> "-", env |-> "-"]
New(i) == i \notin DOMAIN obj /\ obj' = Put(obj, i, Closed) /\ UNCHANGED <<files, conf>>
Configure(gp, env) == conf' = [gp |-> gp, env |-> env] /\ UNCHANGED <<obj, files>>
\* nothing of array i is left
Ends(i) == obj' = [obj EXCEPT ![i] = Closed] /\ files' = (IF obj[i].open THEN Without(files, {obj[i].file}) ELSE files) /\ UNCHANGED conf
Open(i, n, map, t) ==
  LET left == IF obj[i].open THEN Without(files, {obj[i].file}) ELSE files IN
  IF ~Exists(Dir) \/ (map /\ n = 0) THEN Ends(i)
  ELSE /\ t > 0 /\ t \notin DOMAIN files
       /\ files' = Put(left, t, [dir |-> Dir, n |-> n, sz |-> Bytes(i)])
       /\ obj' = [obj EXCEPT ![i] = [open |-> TRUE, map |-> map, data |-> Blank(n), pos |-> IF n = 0 THEN 0 ELSE Unknown, file |-> t]]
       /\ UNCHANGED conf
Opens(i, n, map) == Exists(Dir) /\ ~(map /\ n = 0)
Grown(d, n) == IF n =< Len(d) THEN SubSeq(d, 1, n) ELSE d \o Blank(n - Len(d))
Holds(i, d) == obj' = [obj EXCEPT ![i].data = d] /\ files' = [files EXCEPT ![obj[i].file].n = Len(d)] /\ UNCHANGED conf
Same == UNCHANGED tvars
Resize(i, n) == IF obj[i].open THEN Holds(i, Grown(obj[i].data, n)) ELSE Same
Close(i, remove) == IF obj[i].open /\ ~remove THEN obj' = [obj EXCEPT ![i] = Closed] /\ UNCHANGED <<files, conf>> ELSE Ends(i)
Destroy(i) == obj' = Without(obj, {i}) /\ files' = (IF obj[i].open THEN Without(files, {obj[i].file}) ELSE files) /\ UNCHANGED conf
Seek(i, p) == obj[i].open /\ obj' = [obj EXCEPT ![i].pos = p] /\ UNCHANGED <<files, conf>>
Agree(v, d) == Len(v) = Len(d) /\ \A k \in 1..Len(v) : d[k] = Unknown \/ v[k] = d[k]
Reads(i, n) == obj[i].open /\ obj[i].pos # Unknown /\ obj[i].pos + n =< Size(i)
Read(i, v) == /\ Agree(v, SubSeq(obj[i].data, obj[i].pos + 1, obj[i].pos + Len(v)))
              /\ obj' = [obj EXCEPT ![i].pos = @ + Len(v)] /\ UNCHANGED <<files, conf>>
Over(d, p, v) == LET n == IF p + Len(v) > Len(d) THEN p + Len(v) ELSE Len(d) IN
                 [k \in 1..n |-> IF k > p /\ k =< p + Len(v) THEN v[k - p] ELSE IF k =< Len(d) THEN d[k] ELSE Unknown]
\* writing nothing does not make the array larger
Write(i, v) == LET o == obj[i] d == IF v = <<>> THEN o.data ELSE Over(o.data, o.pos, v) IN
  /\ o.open
  /\ obj' = [obj EXCEPT ![i].data = d, ![i].pos = o.pos + Len(v)] /\ files' = [files EXCEPT ![o.file].n = Len(d)] /\ UNCHANGED conf
Poke(i, k, x) == obj[i].map /\ k \in 1..Size(i) /\ obj' = [obj EXCEPT ![i].data[k] = x] /\ UNCHANGED <<files, conf>>
Peek(i, v) == obj[i].map /\ Agree(v, obj[i].data) /\ Same

Own == \A i, j \in DOMAIN obj : (i # j /\ obj[i].open /\ obj[j].open) => obj[i].file # obj[j].file
There == \A i \in DOMAIN obj : obj[i].open => (obj[i].file \in DOMAIN files /\ files[obj[i].file].n = Size(i))
=============================================================================

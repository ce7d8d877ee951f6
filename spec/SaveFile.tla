------------------------------ MODULE SaveFile ------------------------------
(* A file replaced as a whole. A small file system: names lead to inodes, an   *)
(* inode has the content written so far (a sequence of chunks), the content    *)
(* known to be on disk, and a mode. What must hold of the target at every      *)
(* instant is stated on it: whatever stops the process or the machine there,   *)
(* the target is absent or complete.                                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES fcfg,   \* [target, old (content before or <<>>), had, mode, good (complete contents), new (complete contents of the cache when the save began)]
          names,  \* [name -> inode number]
          inodes, \* sequence of [data, dur, mode]
          fds,    \* [descriptor -> inode number]
          begun   \* the names when the save began, or {}
fvars == <<fcfg, names, inodes, fds, begun>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Members(s) == {s[j] : j \in 1..Len(s)}

FInit(c, others) ==
  /\ fcfg = c
  /\ LET all == (IF c.had THEN <<c.target>> ELSE <<>>) \o others
     IN  /\ names = [n \in Members(all) |-> CHOOSE j \in 1..Len(all) : all[j] = n]
         /\ inodes = [j \in 1..Len(all) |-> IF all[j] = c.target THEN [data |-> c.old, dur |-> c.old, mode |-> c.mode]
                                              ELSE [data |-> <<0>>, dur |-> <<0>>, mode |-> 0]]
  /\ fds = <<>> /\ begun = {}

-----------------------------------------------------------------------------
Begin == begun' = DOMAIN names /\ UNCHANGED <<fcfg, names, inodes, fds>>
Open(fd, name, create, excl, trunc, mode) ==
  /\ IF name \in DOMAIN names
     THEN /\ ~(create /\ excl)
          /\ fds' = Put(fds, fd, names[name])
          /\ inodes' = IF trunc THEN [inodes EXCEPT ![names[name]].data = <<>>] ELSE inodes
          /\ UNCHANGED names
     ELSE /\ create
          /\ inodes' = Append(inodes, [data |-> <<>>, dur |-> <<>>, mode |-> mode])
          /\ names' = Put(names, name, Len(inodes) + 1)
          /\ fds' = Put(fds, fd, Len(inodes) + 1)
  /\ UNCHANGED <<fcfg, begun>>
Write(fd, chunk) == /\ inodes' = [inodes EXCEPT ![fds[fd]].data = Append(@, chunk)]
                    /\ UNCHANGED <<fcfg, names, fds, begun>>
Truncate(fd) == /\ inodes' = [inodes EXCEPT ![fds[fd]].data = <<>>]
                /\ UNCHANGED <<fcfg, names, fds, begun>>
Sync(fd) == /\ inodes' = [inodes EXCEPT ![fds[fd]].dur = inodes[fds[fd]].data]
            /\ UNCHANGED <<fcfg, names, fds, begun>>
Chmod(ino, mode) == /\ inodes' = [inodes EXCEPT ![ino].mode = mode]
                    /\ UNCHANGED <<fcfg, names, fds, begun>>
Close(fd) == fds' = Del(fds, fd) /\ UNCHANGED <<fcfg, names, inodes, begun>>
Rename(a, b) == /\ a \in DOMAIN names
                /\ names' = Del(Put(names, b, names[a]), a)
                /\ UNCHANGED <<fcfg, inodes, fds, begun>>
Link(a, b) == a \in DOMAIN names /\ names' = Put(names, b, names[a]) /\ UNCHANGED <<fcfg, inodes, fds, begun>>
Unlink(a) == names' = Del(names, a) /\ UNCHANGED <<fcfg, inodes, fds, begun>>

-----------------------------------------------------------------------------
Target == inodes[names[fcfg.target]]
Complete(c) == c \in Members(fcfg.good)
\* at every instant
TargetOk == fcfg.target \in DOMAIN names =>
              /\ Complete(Target.data)                    \* the process stops here
              /\ Complete(Target.dur)                     \* the machine stops here
              /\ fcfg.had => Target.mode = fcfg.mode
\* once a save has returned
SavedOk(ok, cleanup) ==
  /\ IF ok THEN fcfg.target \in DOMAIN names /\ Target.data \in Members(fcfg.new)
     ELSE IF fcfg.had THEN fcfg.target \in DOMAIN names /\ Target.data = fcfg.old
     ELSE fcfg.target \notin DOMAIN names
  /\ cleanup => DOMAIN names \subseteq begun \cup {fcfg.target}

-----------------------------------------------------------------------------
\* what start-up may remove from a directory: e is [own, regular, stale, named]
RemovedOk(e) == /\ e.removed => e.own /\ e.regular /\ e.stale /\ e.named
                /\ e.own /\ e.regular /\ e.stale /\ e.named => e.removed
\* a start from a file: the keys served are exactly those of one snapshot
RestoredOk(e) == e.started /\ \E j \in 1..Len(e.snapshots) : Members(e.snapshots[j]) = Members(e.keys)
=============================================================================

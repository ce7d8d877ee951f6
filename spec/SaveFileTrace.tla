--------------------------- MODULE SaveFileTrace ---------------------------
EXTENDS TraceUtil
VARIABLES tr, i, fcfg, names, inodes, fds, begun
F == INSTANCE SaveFile
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ F!FInit(Traces[k].cfg, Traces[k].cfg.others)
Step == \/ Ev.e = "begin"    /\ F!Begin
        \/ Ev.e = "open"     /\ F!Open(Ev.fd, Ev.name, Ev.create, Ev.excl, Ev.trunc, Ev.mode)
        \/ Ev.e = "write"    /\ F!Write(Ev.fd, Ev.c)
        \/ Ev.e = "truncate" /\ F!Truncate(Ev.fd)
        \/ Ev.e = "sync"     /\ F!Sync(Ev.fd)
        \/ Ev.e = "fchmod"   /\ F!Chmod(fds[Ev.fd], Ev.mode)
        \/ Ev.e = "chmod"    /\ F!Chmod(names[Ev.name], Ev.mode)
        \/ Ev.e = "close"    /\ F!Close(Ev.fd)
        \/ Ev.e = "rename"   /\ F!Rename(Ev.name, Ev.to)
        \/ Ev.e = "link"     /\ F!Link(Ev.name, Ev.to)
        \/ Ev.e = "unlink"   /\ F!Unlink(Ev.name)
        \/ Ev.e = "end"      /\ F!SavedOk(Ev.ok, Ev.cleanup) /\ UNCHANGED <<fcfg, names, inodes, fds, begun>>
Next == More /\ Step /\ F!TargetOk' /\ i' = i + 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================

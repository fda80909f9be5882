"""which harness decides which property"""
def get(pid):
    if pid in ('R01', 'R02', 'R03', 'R04'):
        from . import rt; return rt.make(pid, '')
    if pid == 'R05':
        from . import rt5; return rt5.NamespaceCheck()
    if pid in ('S01', 'S02', 'S03', 'S04', 'S05'):
        from . import samp; return samp.make(pid)
    if pid in ('C07', 'C13', 'C14', 'C15'):
        from . import cl2; return cl2.make(pid)
    if pid == 'C21':
        from . import cl6; return cl6.make(pid)
    if pid == 'C20':
        from . import cl5; return cl5.make(pid)
    if pid in ('C18', 'C19'):
        from . import cl4; return cl4.make(pid)
    if pid in ('C16', 'C17'):
        from . import cl3; return cl3.make(pid)
    if pid[0] == 'C':
        from . import cl; return cl.make(pid)
    raise SystemExit('unknown property ' + pid)

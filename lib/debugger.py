"""Run inside GDB: at every stop of the harness, GDB's own backtrace must show
the frames the specification calls for."""
import os
import re
import gdb

MARK = {'m_tr': 't', 'm_os': 'o', 'm_ps': 'p', 'm_loc': 'l', 'm_cln': 'x', 'm_act': 'a', 'm_cat': 'k', 'm_got': 'g', 'm_hold': 'h',
        'm_resume': 'r', 'm_force': 'f', 'm_drop': 'd', 'm_into': 'i', 'm_on_stack': 'O', 'm_on_parent': 'P', 'm_root': 'm'}
MARK.update(('m_co%d' % i, str(i)) for i in range(1, 8))
out = open(os.environ['HV_GDB_OUT'], 'w')
stops = bad = 0


class Stop(gdb.Breakpoint):
    def stop(self):
        global stops, bad
        stops += 1
        inf = gdb.selected_inferior()
        at = int(gdb.parse_and_eval("(unsigned long)&HV_DEBUGGER"))
        w = gdb.lookup_type('long').sizeof
        f = [int.from_bytes(inf.read_memory(at + w * i, w).tobytes(), 'little') for i in range(4)]
        want = inf.read_memory(f[0], f[1]).tobytes().decode() if f[1] else ''
        seen, why, n = '', '', 0
        try:
            fr = gdb.newest_frame()
            while fr is not None:
                n += 1
                m = re.search(r'(?:^|::)interp::(m_\w+)(?:::h[0-9a-f]{16})?$', fr.name() or '')
                if m and fr.type() != gdb.INLINE_FRAME:
                    seen += MARK.get(m.group(1), '')
                    if m.group(1) == 'm_root':
                        break
                up = fr.older()
                if up is None and fr.unwind_stop_reason() != gdb.FRAME_UNWIND_NO_REASON:
                    why = gdb.frame_stop_reason_string(fr.unwind_stop_reason())
                fr = up
        except gdb.error as e:
            why = str(e)
        if seen != want:
            bad += 1
            out.write('V %d %d GDB shows %s, expected %s (%d frames; %s)\n' % (f[2], f[3], seen, want, n, why))
            out.flush()
        return bad >= 5


gdb.execute('set pagination off')
gdb.execute('set confirm off')
gdb.execute('set backtrace past-main off')
gdb.execute('set backtrace limit unlimited')
gdb.execute('handle all nostop noprint pass')
gdb.execute('set startup-with-shell off')
Stop('hv_debugger_stop')
gdb.execute('run')
try:
    code = int(gdb.parse_and_eval('$_exitcode'))
except gdb.error:
    code = -1
out.write('S %d %d %d\n' % (stops, bad, code))
out.close()
gdb.execute('quit')

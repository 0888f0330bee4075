#!/usr/bin/env python3
"""Write the runtime overlay for the controlled scheduler into DIR."""
import json, os, subprocess, sys
out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
root = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip() + '/src/runtime/'
here = os.path.dirname(os.path.abspath(__file__))
def patch(name, *reps):
    s = open(root + name).read()
    for a, b in reps:
        if s.count(a) != 1:
            raise SystemExit('overlay: %s: expected once, found %d: %r' % (name, s.count(a), a[:60]))
        s = s.replace(a, b)
    open(os.path.join(out, name), 'w').write(s)
patch('chan.go',
 ('func chansend1(c *hchan, elem unsafe.Pointer) {\n\tchansend(c, elem, true, sys.GetCallerPC())\n}',
  'func chansend1(c *hchan, elem unsafe.Pointer) {\n\tpc := sys.GetCallerPC()\n\tif verifS.on {\n\t\tverifChansend(c, elem, pc)\n\t\treturn\n\t}\n\tchansend(c, elem, true, pc)\n}\n\nfunc verifChansend(c *hchan, elem unsafe.Pointer, pc uintptr) {\n\th := c != nil && verifPre1(VerifSend, c, pc, true)\n\tchansend(c, elem, true, pc)\n\tverifPost(h, pc, true)\n}'),
 ('\tgopark(chanparkcommit, unsafe.Pointer(&c.lock), reason, traceBlockChanSend, 2)\n', '\tgp.verifBlocked = true\n\tgopark(chanparkcommit, unsafe.Pointer(&c.lock), reason, traceBlockChanSend, 2)\n'),
 ('\tgopark(chanparkcommit, unsafe.Pointer(&c.lock), reason, traceBlockChanRecv, 2)\n', '\tgp.verifBlocked = true\n\tgopark(chanparkcommit, unsafe.Pointer(&c.lock), reason, traceBlockChanRecv, 2)\n'),
 ('func closechan(c *hchan) {\n\tif c == nil {\n\t\tpanic(plainError("close of nil channel"))\n\t}\n',
  'func closechan(c *hchan) {\n\tpc := sys.GetCallerPC()\n\tif c != nil && verifS.on {\n\t\th := verifPre1(VerifClose, c, pc, false)\n\t\tclosechan0(c)\n\t\tverifPost(h, pc, true)\n\t\treturn\n\t}\n\tclosechan0(c)\n}\n\nfunc closechan0(c *hchan) {\n\tif c == nil {\n\t\tpanic(plainError("close of nil channel"))\n\t}\n'),
 ('func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tchanrecv(c, elem, true)\n}',
  'func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tif verifS.on {\n\t\tverifChanrecv(c, elem, sys.GetCallerPC())\n\t\treturn\n\t}\n\tchanrecv(c, elem, true)\n}\n\nfunc verifChanrecv(c *hchan, elem unsafe.Pointer, pc uintptr) bool {\n\th := c != nil && verifPre1(VerifRecv, c, pc, true)\n\t_, r := chanrecv(c, elem, true)\n\tverifPost(h, pc, false)\n\treturn r\n}'),
 ('func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n',
  'func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tif verifS.on {\n\t\treturn verifChanrecv(c, elem, sys.GetCallerPC())\n\t}\n'),
 ('func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n',
  'func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tif c != nil && verifS.on {\n\t\tpc := sys.GetCallerPC()\n\t\th := verifPre1(VerifSendNB, c, pc, false)\n\t\tselected = chansend(c, elem, false, pc)\n\t\tverifPost(h, pc, selected)\n\t\treturn\n\t}\n'),
 ('func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n',
  'func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tif c != nil && verifS.on {\n\t\tverifPre1(VerifRecvNB, c, sys.GetCallerPC(), false)\n\t}\n'),
)
patch('select.go',
 ('func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n',
  '''func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {
	if verifS.on {
		pc := sys.GetCallerPC()
		h, choice := verifPreSelect(cas0, nsends, nrecvs, block, pc)
		i, ok := selectgo0(cas0, order0, pc0, nsends, nrecvs, block, choice)
		verifPost(h, pc, i >= 0 && i < nsends)
		return i, ok
	}
	return selectgo0(cas0, order0, pc0, nsends, nrecvs, block, -1)
}

func selectgo0(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool, verifChoice int) (int, bool) {
	gp := getg()
'''),
 ('\t\tj := cheaprandn(uint32(norder + 1))\n',
  '\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif verifS.on && gp.bubble != nil {\n\t\t\tj = uint32(norder)\n\t\t\tif i == verifChoice {\n\t\t\t\tj = 0\n\t\t\t}\n\t\t}\n'),
 ('\tgopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)\n', '\tgp.verifBlocked = true\n\tgopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)\n'),
)
s = open(root + 'select.go').read()
t = open(os.path.join(out, 'select.go')).read()
if '"internal/runtime/sys"' not in t:
    t = t.replace('import (\n', 'import (\n\t"internal/runtime/sys"\n', 1)
    open(os.path.join(out, 'select.go'), 'w').write(t)
patch('runtime2.go',
 ('\tcoroexit     bool // argument to coroswitch_m\n', '\tcoroexit     bool // argument to coroswitch_m\n\tverifBlocked bool\n'),
 ('\twaitReasonSynctestSelect:        true,\n}', '\twaitReasonSynctestSelect:        true,\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n}'),
)
open(os.path.join(out, 'verif_sched.go'), 'w').write(open(os.path.join(here, 'verif_sched.go.txt')).read())
ov = {root + n: os.path.join(out, n) for n in ('chan.go', 'select.go', 'runtime2.go', 'verif_sched.go')}
json.dump({'Replace': ov}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)

"""Writes the instances of specs/Olc.tla that TLC checks (specs/OlcMC_*, OlcMut_*)."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', '')
HEAD='''------------------------------- MODULE %s -------------------------------
EXTENDS OlcMC
%s
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \\in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \\in DOMAIN ks |-> <<"del", ks[i]>>]
%s
==============================================================================
'''
def cfg(threads=2,flags="",budget=0,live=False,record=False):
    return '''%s
CONSTANTS
 KLen = 3
 NV = 1000
 Keys <- KeysDef
 Caps <- CapsDef
 Threads = {%s}
 Flags = {%s}
 Record = %s
 Setups <- SetupsDef
 Progs <- ProgsDef
 Budget = %d
%s
'''%("SPECIFICATION Spec" if live else "INIT Init\nNEXT Next\nVIEW View",
     ", ".join(str(i+1) for i in range(threads)), flags, "TRUE" if record else "FALSE", budget,
     "PROPERTY Progress" if live else "INVARIANTS Linearizable NoUseAfterFree NoLeak Unlocked0 FinalTree")
ALL='SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>), Ins(<<1,2,4>>), Ins(<<1,4,5>>), Ins(<<1,4>>) \\o Del(<<1,4>>) }'

def s(*x): return "SetupsDef == { " + ", ".join(x) + " }"
M = {
# quick
'OlcMC_point_q':(2,0,'two threads, one point operation each',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,2>>)","Ins(<<1,4>>)"),
  'ProgsDef == {<<a, b>> : a \\in One({"insert", "remove"}, {1,3,4}, 1), b \\in One({"get", "remove", "coi"}, {1,3,4}, 2)}']),
'OlcMC_rmw_q':(2,0,'computing operations against modifications',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,2>>)"),
  'ProgsDef == {<<a, b>> : a \\in Two({"cip"}, {1}, 1) \\cup One({"coi", "cip"}, {1,3}, 1), b \\in Two({"insert","remove"}, {1}, 2) \\cup One({"coi", "cip"}, {1,3}, 2)}']),
'OlcMC_scan_q':(2,0,'a scan against two modifications',
 [s("Ins(<<1>>)","Ins(<<6>>)","Ins(<<1,4>>) \\o Del(<<4>>)","Ins(<<1,4,6>>)"),
  'ProgsDef == {<<a, b>> : a \\in Two({"insert", "remove"}, {1,6}, 1), b \\in {Scan(0), Scan(1)}}']),
'OlcMC_empty_q':(2,0,'an emptiness question against two modifications; emptied inner nodes',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,4,6,7>>) \\o Del(<<1,4,7>>)"),
  'ProgsDef == {<<a, Empty>> : a \\in Two({"insert", "remove"}, {1,6}, 1)}']),
'OlcMC_fault_q':(2,1,'one allocation failure or panicking closure, two threads',
 [s("<<>>","Ins(<<1,2>>)","Ins(<<1,4>>)"),
  'ProgsDef == {<<a, b>> : a \\in One({"insert", "coi", "cip"}, {1,3,6}, 1), b \\in One({"get","insert","remove"}, {1,3}, 2)}']),
'OlcMC_live_q':(2,0,'every thread completes',
 [s("Ins(<<1>>)","Ins(<<1,2>>)"),
  'ProgsDef == {<<a, b>> : a \\in One({"insert", "remove"}, {1,3,4}, 1), b \\in One({"insert","get"}, {1,3}, 2) \\cup {Scan(0)}}']),
# thorough
'OlcMC_point':(2,0,'two threads, one point operation each, every initial shape',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,2>>)","Ins(<<1,4>>)","Ins(<<1,2,4>>)","Ins(<<1,4>>) \\o Del(<<1,4>>)"),
  'ProgsDef == {<<a, b>> : a \\in One(Writers, 1..6, 1), b \\in One({"get"} \\cup Writers, 1..6, 2)}']),
'OlcMC_scan':(2,0,'a scan, with and without a limit, against one or two modifications',
 [s("Ins(<<1>>)","Ins(<<6>>)","Ins(<<1,2>>)","Ins(<<1,4>>) \\o Del(<<4>>)","Ins(<<1,2,4>>)","Ins(<<1,4,6>>)"),
  'ProgsDef == {<<a, b>> : a \\in Two({"insert", "remove"}, {1,2,4,6}, 1) \\cup One(Writers, 1..6, 1), b \\in {Scan(0), Scan(1), Scan(2)}}']),
'OlcMC_empty':(2,0,'an emptiness question against two modifications; emptied inner nodes',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,4>>)","Ins(<<1,4>>) \\o Del(<<1>>)","Ins(<<1,4>>) \\o Del(<<1,4>>)",
    "Ins(<<1,4,6,7>>) \\o Del(<<1,4,7>>)","Ins(<<1,4,6,7>>) \\o Del(<<4,6,7>>)"),
  'ProgsDef == {<<a, Empty>> : a \\in Two({"insert", "remove"}, {1,4,6,7}, 1)}']),
'OlcMC_fault':(2,2,'up to two allocation failures or panicking closures, two threads',
 [s("<<>>","Ins(<<1>>)","Ins(<<1,2>>)","Ins(<<1,4>>)"),
  'ProgsDef == {<<a, b>> : a \\in One({"insert", "coi", "cip"}, 1..6, 1), b \\in One({"get","insert","coi","remove","cip"}, {1,3,4,6}, 2)}']),
'OlcMC_three':(3,0,'three threads',
 [s("Ins(<<1>>)","Ins(<<1,2>>)","Ins(<<1,4>>)"),
  'ProgsDef == {<<a, b, c>> : a \\in One({"remove", "insert"}, {1,2,3}, 1), b \\in One({"insert","cip","remove"}, {1,3,4}, 2), c \\in One({"get"}, {1,2}, 3) \\cup {Scan(0)}}']),
'OlcMC_two':(2,0,'two operations against two operations on a few keys',
 [s("Ins(<<1>>)","Ins(<<1,2>>)"),
  'ProgsDef == {<<a, b>> : a \\in Two({"insert", "remove"}, {1,3,4}, 1), b \\in Two({"get","insert","remove","cip"}, {1,3}, 2)}']),
'OlcMC_live':(2,0,'every thread completes',
 [s("Ins(<<1>>)","Ins(<<1,2>>)","Ins(<<1,4>>)"),
  'ProgsDef == {<<a, b>> : a \\in One(Writers, {1,3,4}, 1), b \\in One(Ops7, {1,3}, 2)}']),
}
for n,(th,b,doc,body) in M.items():
    open(D+n+'.tla','w').write(HEAD%(n,'\\* '+doc,'\n'.join(body)))
    open(D+n+'.cfg','w').write(cfg(th,"",b,'live' in n))
MUT={'get_miss_unchecked':'point_q','check_ignores_lock':'point_q','race_leaks_leaf':'point_q','unlink_without_leaf_lock':'point_q','relock_in_place':'rmw_q',
'oom_keeps_lock':'fault_q','grow_without_obsolete':'point_q','free_at_once':'point_q','parent_stays_locked':'point_q','scan_slots_unchecked':'scan_q','scan_end_unchecked':'scan_q','empty_without_recheck':'empty_q','scan_slots_unchecked':'scan_q','no_parent_check':'two'}
for f,m in MUT.items():
    n='OlcMC_'+m
    open(D+'OlcMut_%s.cfg'%f,'w').write(cfg(M[n][0],'"%s"'%f,M[n][1]))

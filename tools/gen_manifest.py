import os
H=os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(H,'props.py')).read())
import os
EXTRA=os.path.join(H,'props_extra.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())
order=sorted(P,key=lambda p:p['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in order))
na_ids={n['property'] for n in NA}
checks=[]
T={"C01":"thread schedules","C02":"thread schedules","C03":"thread schedules and non-finite inputs","C04":"thread schedules and injected panics","C05":"interleavings, histories and injected panics","C06":"hash seeds, heap contents and histories","C07":"short and interrupted writes","C08":"I/O errors and full disks","C09":"process crashes and torn writes","C10":"interleavings of file system calls and I/O faults","C11":"thread schedules with starvation and spurious wake-ups","C12":"interleaved and abandoned steps, re-entrant and panicking callbacks","C13":"repeated calls with panics, bad input and I/O faults","C14":"awkward large data on threads with little stack"}
T.update(globals().get('TX',{}))
for p in order:
    i=p['id']
    if i in na_ids: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",evidence_file=f"evidence/{i}.json",
      technique=f"deterministic simulation: seeded search over {T[i]}, minimised replayable traces",level="exploration",
      level_note="Seeded sampling of simulated executions of the real library, rayon and std under a scheduler, file system and environment the simulator owns; a clean run is evidence, not proof. Trusts the simulator's futex, thread and file models and the small reference models; sequentially consistent memory; interleavings at vector operations, allocations, atomics and statics of the repository's code, futex calls, yields, thread and file system calls."))
m=dict(version=1,setup_cmd="./check.sh build",hooks=dict(guard="none: /repo carries no hooks",enable="nothing to enable: the simulator interposes libc symbols, implements the public vector traits and forks each run",source_commits=[]),checks=checks,not_applicable=sorted(NA,key=lambda n:n['property']),
 notes="Simulator crate in sim/, see DESIGN.md. sim/target/release/lssim replay <file> repeats a recorded violation.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import sys

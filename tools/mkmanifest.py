import json
T={
'C01':('in-memory searches of random and adversarial trees compared with a linear scan','exploration'),
'C02':('event-recorded streaming searches compared with a linear scan and with in-memory search','exploration'),
'C03':('offline checker over the recorded read/seek log of each streaming search, allocation meter','exploration'),
'C04':('serialized bytes compared with an independent format model, size sweep, hostile streams','exploration'),
'C05':('size results compared with big-integer arithmetic at and around every overflow boundary','exploration'),
'C06':('order monitor with an independent Hilbert curve and rounding intervals, permutation monitor','exploration'),
'C07':('lattice-law monitor with an independent union model','exploration'),
'C08':('written files compared byte for byte with an independent file model, then read back and copied','exploration'),
'C09':('independent parser and monitors over files written by IndexData','exploration'),
'C10':('features returned by IndexSearch compared with a scan of the file model','exploration'),
'C11':('online state-machine monitor over random call histories on instrumented streams','exploration'),
'C12':('differential run of one history over eight legal stream behaviours, recorded positions compared','exploration'),
'C13':('fault at every I/O operation and truncation at every byte, judged by the state machine','fault_enumeration'),
'C14':('structure-aware corruption with panic, step-budget, stack and allocation monitors','exploration'),
'C15':('online state-machine monitor over random writer call histories and the bytes written','exploration'),
'C16':('fault at every write call with every partial length class, prefix monitor','fault_enumeration'),
'C17':('property encoding compared with an independent codec, exhaustive over small types','exploration'),
'C18':('decoded pairs compared with a property model under all schema kinds and truncations','exploration'),
'C19':('race detector over stressed concurrent histories, results compared with sequential runs','exploration'),
'C20':('ownership monitor: results and inputs scribbled over and re-read','exploration'),
'C21':('lifecycle monitor over call histories, close-counting streams','exploration'),
'C22':('acceptance oracle over magic numbers and headers, consumed-bytes and allocation monitors','exploration'),
'C23':('schema-driven differential of generated accessors and builders against an independent FlatBuffers codec','exploration'),
'C24':('summaries compared with a model rendering of the same objects','exploration'),
'C25':('cross builds; 386, js/wasm and emulated big-endian executions compared with the model and the host','exploration'),
'C27':('offline checker over the recorded reads and seeks of every reader call, allocation meter','exploration'),
'C28':('order and permutation monitor, texts parsed back and compared','exploration'),
'C29':('searches of damaged indexes compared with a positional descent through the same bytes','exploration'),
'C30':('processor time, allocation and live-heap meters over the same operation on data of two sizes and over long histories','exploration'),
'C26':('AddressSanitizer, checkptr and guard-page runs with re-read monitors','exploration'),
}
NOTE={
'C30':'Time is judged only as a ratio between two sizes of the same kind of data, with a margin of six and repeated before it is judged; slow-downs by a constant factor are not seen.',
'C13':'Every operation and byte of the generated scripts is faulted where the script is short (all of them up to the limits in DESIGN.md), sampled beyond; scripts themselves are random.',
'C16':'Every write call of each generated script is made to fail at several partial lengths; scripts themselves are random.',
'C19':'Absence of races on the schedules that occurred; the race detector misses races whose accesses it did not see unordered.',
'C25':'386 and js/wasm are executed; big-endian code is executed on a little-endian host with reversed octets; other architectures are compiled only.',
'C26':'Absence of reports on the executions made; AddressSanitizer and checkptr see Go heap and stack objects, guard pages see read-only inputs.',
}
D='Holds on all executions generated (seeded, reproducible, counted in the evidence file); trusts the reference model and the monitors described in DESIGN.md.'
m={'version':1,'setup_cmd':'bash ./setup.sh','checks':[],'not_applicable':[],
 'notes':'No hooks are needed in /repo: the monitors observe the exported API, the streams it is given, and the process. C17, C18 and C24 print KNOWN-FINDING lines for PropReader.ReadInt, see DESIGN.md.'}
for k in sorted(T):
    m['checks'].append({'property':k,'quick_cmd':f'./check.sh {k} quick','thorough_cmd':f'./check.sh {k} thorough','evidence_file':f'evidence/{k}.json','technique':'runtime monitoring: '+T[k][0],'level':T[k][1],'level_note':NOTE.get(k,D)})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))

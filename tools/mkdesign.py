#!/usr/bin/env python3
"""Regenerates DESIGN.md: the general part below, and per property what the rule modules and properties.jsonl say."""
import ast, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()
# property -> (what is specified by hand, what is enumerated from the program, oracle)
X = {
'C01': ('the list of external functions that wait, lock, sleep, spawn or do I/O', 'roots (processor callbacks, device callbacks, render thread entry points) and every external function reachable from them', 'the effect list: a reachable waiting function is a violation, with the call chain'),
'C02': ('nothing but "owns heap memory" (decided by type) and the library calls that free', 'every drop, overwrite and freeing call in every message handler; every path of the message box through the render thread', 'a heap-owning value that may be initialised at a drop on the render side'),
'C03': ('the callbacks of the processor trait that user code implements', 'all dispatches through the trait object, all paths behind the "panicked" outcome', 'containment by catch_unwind on every chain; exactly one event, removal and purge on every path'),
'C04': ('which library calls lock, wait or send with a capacity', 'every pair of locks held together, every call made with a lock held, every wait', 'acyclic lock order; no callback and no wait under a lock the other side needs'),
'C05': ('which constructs reject a call', 'every call made while a guard is live, in everything the public API reaches', 'no rejection reachable with a live guard (it would poison the lock)'),
'C06': ('nothing: channels and queues are found by their element type', 'all send, stage, flush, receive and take-back sites', 'path rules: sent or staged, flushed in order and completely, never received by two'),
'C07': ('which request leads to which state', 'all arms of the message handler, all constructions of requests', 'exactly one acknowledgement, behind the state change, on every path'),
'C08': ('the name of the final state', 'all writes of the shared state, all handlers, all senders', 'constant propagation through each update closure started in "closed" must decline'),
'C09': ('nothing: the counter is found as the atomic that the clock getter reads', 'all writers of the counter, all paths of the rendering entry points', 'increment and rendering strictly alternate; time = frame / rate as expressions in f64'),
'C10': ('the fixed ids (destination, listener, its parameters)', 'constructions, drops, removals and releases of ids in the whole program', 'typestate: handle dropped -> node removed -> id released, once'),
'C11': ('which constructs panic', 'panic sites in the handler for each message kind, uses of the graph', 'none may depend on the presence of the named node; graph presence by protocol order'),
'C12': ('the roles source, destination, output, input', 'all connect and disconnect methods of all node types, the messages, the edges', 'dominance of tests; role agreement; decision tables of removal predicates'),
'C13': ('nothing: the ordered list is found as what rendering walks', 'all mutations of nodes and connections', 'each mutation establishes the recompute condition; structure of the depth first search'),
'C14': ('library calls that fill a given slice', 'all output writes of all processors; all paths of the graph step', 'must-write before return, must-silence before the next quantum'),
'C15': ('nothing', 'all post sites with their concrete types; all downcasts; all variants and fields', 'type agreement and flow of every payload into processor state'),
'C16': ('nothing: attributes are pairs of setter and getter', 'all setter/getter pairs, all mirrored fields of handles and processors', 'the place the getter reads is written; message and store carry one expression'),
'C17': ('the constraint table of the Web Audio specification', 'both routes of all node types and attributes', 'the table, and agreement of both routes for constraints beyond it'),
'C18': ('nothing: names of options, accessors and creation order are compared with each other', 'all parameters of all nodes, the nine listener parameters', 'both ends of each provenance chain carry the same identity'),
'C19': ('HRTF panning (k-rate by specification)', 'all uses of a single value of a parameter', 'a test of that very parameter, or k-rate that is locked'),
'C20': ('nothing: the nodes with start and stop', 'all posts, dispatches and returns of the source processors', 'typestate started/ended on every path'),
'C21': ('which constructs reject, which library calls have effects', 'all public methods of handles', 'no rejection reachable from an effect'),
'C22': ('the list of ambient effects', 'all functions reachable from offline rendering and preparation', 'none of the listed effects; no iteration in hash order'),
'C23': ('the list of public handle kinds and of per-quantum types', 'all types and fields, all unsafe impls', 'the trait solver of the compiler'),
'C24': ('nothing: the containers are found by their lifetime-extended element type', 'all paths of the worklet adapter', 'typestate filled/emptied'),
'C25': ('the guard function of the no_denormals crate', 'all call chains to the graph rendering function', 'each chain passes the guard'),
'C26': ('nothing: sample storage is found by type', 'all mutable accesses to shared storage, all type declarations', 'only copy-on-write access'),
'C27': ('the calls of decoder libraries, the failures that end or skip a packet', 'all functions that decode or hand on decoded blocks', 'failure reaches an error result on every path; checked before asserted'),
'C28': ('nothing: keys and payloads are compared with each other', 'all registrations, removals, dispatches, the delivery function', 'key, payload and identity agreement; typestate of the handler table'),
'C29': ('nothing: the shared part is found by type', 'all paths of the consumer step', 'lock scope, position equality before pulling, publication before release'),
'C30': ('how each device library starts, stops and drops a stream', 'all implementations of the backend trait', 'sibling agreement'),
}
out = [HEAD.rstrip(), '', '## Properties', '']
props = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    if l.strip():
        d = json.loads(l); props[d['id']] = d
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {e['property']: e['reason'] for e in man.get('not_applicable', [])}
extra = {}
cur = None
for l in open(os.path.join(V, 'tools', 'design_notes.md')):
    if l.startswith('## '):
        cur = l[3:].strip(); extra[cur] = []
    elif cur and l.strip():
        extra[cur].append(l.rstrip())
for pid in sorted(props):
    d = props[pid]
    out += ['### %s %s' % (pid, d['title']), '']
    if pid in na:
        out += ['Not applicable: ' + na[pid], '']
        continue
    c = {}
    for s in ast.parse(open(os.path.join(V, 'rules', pid.lower() + '.py')).read()).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ('EXPLANATION', 'NOTE', 'TECHNIQUE', 'ASSUMPTIONS'):
            c[s.targets[0].id] = ast.literal_eval(s.value)
    x = X[pid]
    out += ['*Technique:* %s.' % c['TECHNIQUE'], '',
            '*How it is decided.* ' + c['EXPLANATION'], '',
            '*Specified by hand:* %s. *Enumerated from the program:* %s. *Oracle:* %s.' % x, '',
            '*Bounds.* ' + c['NOTE'] + (' Assumes: ' + ' '.join(c['ASSUMPTIONS']) if c.get('ASSUMPTIONS') else ''), '',
            '*Why tests cannot settle it.* ' + d['why_tests_cant'], '']
    if extra.get(pid):
        out += extra[pid] + ['']
# which checks report which planted bug: tools/caught.json, recorded by running all checks on each of them
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = ['| bug | property | needs | what it breaks | reported by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (n, d['property'], d['needs'], d['what_it_breaks'], ', '.join(caught.get(n, [])) or 'none'))
out += [TAIL.replace('SEEDED', '\n'.join(rows)).rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))

#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, properties.jsonl and the evidence of the last runs (run on the unchanged tree)."""
import json, os
N = {
"R01": "Contracts on Valid and Inside say what they compute for every window list. Delta and the cutting functions (slices of slices of slices) are bounded: exhaustive over all window lists on a line of 5 indexes, plus random larger ones, against set arithmetic.",
"R02": "Loop and arithmetic contracts on CalculateMoveIndexes, the op writers and CalculateListOps: every op index lies in a window, in bounds of the list, and the op kinds follow the room's move. That the ops as a whole rebuild the window is a bounded check with a model client (exhaustive over small lists and windows, random larger).",
"R03": "Representation invariant (index map is the inverse of the slice) as pre- and postcondition of every method; Sort's comparator is proved, sort.SliceStable has its documented contract.",
"R04": "The two maps are proved to be each other's inverse (data structure invariant) and each method to change exactly its pair; invites end with join or leave.",
"R05": "notifyListeners is proved to call, for every listed user not excluded and only those, the receiver once; OnReceipt/OnEphemeralEvent/Register/Unregister exactly. OnNewEvent's membership routing: bounded, all membership changes, against a reference.",
"R06": "OnIncomingRequest as a protocol step: position checks, replay from the buffer, computed exactly once, no change on error, with ghost counters for calls of the handler.",
"R07": "ConnMap invariant: cache, user map and connID agree; creation, lookup, closing per device/user/expiry change exactly the named connections. Interleavings of the expiry goroutine are covered by the harness only.",
"R08": "Queue contracts on Ingest and PublishUpToNID: the queue keeps order, publishes a prefix, nothing twice; timers fire in any order in the harness. PendingTransactionIDs: bounded, exhaustive small histories.",
"R09": "processLiveUpdate proved (load position filtering, room becomes tracked only when sent; trusted: room cache reads). The end-to-end statement is a bounded check: the real handler, caches, dispatcher and Postgres, random histories of joins, leaves, messages, state, requests; oracle: one client replaying the responses. Names and counts are not judged once a user was ignored.",
"R10": "Visibility intervals: proved that the returned ranges are exactly those where the membership log says joined (two views), that LatestEventsInRooms cuts the newest ones, newest last, and that a gap ends a timeline. SQL statements are trusted with their written meaning and exercised by the harness on Postgres.",
"R11": "Snapshot computation proved (replace or add exactly one entry, stateMap = last event per type and key, dedupe keeps first, order kept); database writes are the bounded part. RoomStateAfterEventPosition inside a state block is outside the property.",
"R13": "Include, QueryStateMap, RequiredStateMap, Combine proved against the matching relation for all inputs; room builder and include_old_rooms in the harness.",
"R14": "ApplyDelta proved field by field: given wins, absent keeps, for every list and subscription; the previous request is not changed (frame).",
"R15": "Include proved against the conjunction of all conditions; AssignList/SetRoom histories are bounded.",
"R16": "Names, avatars, hero bookkeeping, event ingestion proved; hero order and wording quirks follow the code; state reset is bounded on Postgres.",
"R17": "The extension's use of since/next_batch proved over trusted table contracts; tables, cancellation and acknowledgement are bounded on Postgres with several devices. Not checked: a cancellation that arrives between Messages and SetUnackedPosition.",
"R18": "Extension proved over trusted DeviceData contract; accumulate/swap of device list changes bounded on Postgres, also concurrently. A possible deadlock between Select and Upsert of the same device is resolved by Postgres and retried by the poller.",
"R19": "poll, the parse functions and shouldRetry proved with a ghost trace of what was handed to the receiver: since is stored only after every part returned without a retryable error. Harness: every call may fail, panic or be cancelled; receipts, typing, unread counts and transaction IDs are best effort in the design of the server and spared from the faults.",
"R20": "UserCache methods proved with exact frames; account data, tags and m.direct go through sync.Map and gjson iteration and are bounded. Excluded: a space listing itself as child, two m.tag events in one batch.",
"R25": "LazyCache proved as a set of pairs; processLiveUpdate@lazy: whoever sent an event of the update is in the response or was sent before. Histories bounded.",
"R26": "SetRoom and processGlobalUpdates proved: the timestamp of a list moves exactly for its bump types, never back.",
"R27": "Scope, stickiness, ProcessInitial/AppendLive of account data, typing and receipts proved over the trusted finders; data and wire form bounded.",
"R28": "setupConnection, identifyUnknownAccessToken and the token table's logic proved over the trusted homeserver client and SQL; the whole request path with a fake homeserver and Postgres is bounded.",
}
props=[json.loads(l) for l in open('properties.jsonl')]
out=["## Per property",""]
for p in props:
    i=p['id']; f=f'evidence/{i}.json'
    out.append(f"### {i} {p['title']}"); out.append("")
    out.append(N.get(i,'')); 
    if os.path.exists(f):
        c=json.load(open(f))['coverage']
        pr=[x['function'] for x in c['functions'] if x['status']=='proved']
        np=[x['function'] for x in c['functions'] if x['status']!='proved']
        out.append("")
        out.append(f"Proved ({c['obligations']} obligations): "+', '.join(f'`{x}`' for x in pr)+'.')
        if np: out.append("Not proved: "+', '.join(f'`{x}`' for x in np)+'.')
        if c['bounded_checks']: out.append("Bounded: "+', '.join(b['harness'] for b in c['bounded_checks'])+'.')
        tb=[t for t in c['trusted_base'] if t.startswith('contract:')]
        if tb: out.append("Assumed contracts: "+', '.join('`'+t[9:]+'`' for t in tb)+'.')
    out.append("")
out+=["## Planted changes","","| change | property | needs | caught by |","|---|---|---|---|"]
C=json.load(open('seedresults.json')) if os.path.exists('seedresults.json') else {}
for s in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{s}/meta.json'))
    out.append(f"| {s} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {C.get(s,'the check of '+m['property'])} |")
out.append("")
t=open('DESIGN.in.md').read().replace('#PROPS#','\n'.join(out))
open('DESIGN.md','w').write(t)

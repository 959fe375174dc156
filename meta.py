#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this one table (run by hand after editing)."""
import json
TECH = "contract-based deductive verification (govc: Go SSA -> SMT, z3/cvc5), bounded replay harness for what is out of reach"
NOTE_COMMON = (" Trusted: govc itself, the SMT solvers, go/ssa, mutual exclusion by the locks the code takes, machine integers treated"
               " as mathematical ones, and the assumed contracts the evidence file lists. Functions the evidence lists as bounded are"
               " checked on the stated inputs only.")
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mechanism, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a, note=note))
def na(id, reason): NA.append((id, reason))

prop("R01", "Window ranges are validated and combined exactly",
 "A window list is accepted exactly when every range is ordered, non-negative and disjoint from the others. The difference between two accepted window lists reports, for every index, whether it was added, removed or kept, and nothing else. Cutting a list by a window list yields exactly the rooms at the covered indexes.",
 ["inputs"], "all pairs of window lists and all list lengths",
 "The tests fix a dozen pairs of ranges; the guarantee is about every pair of windows a client may send.",
 ["sync3/range.go"], [("SliceRanges.Valid/Inside/Delta/SliceInto", "sync3/range.go")],
 "Validity and membership are proved for all inputs; the difference and the cutting functions are bounded checks, exhaustive over all window lists on a small index line plus random larger ones.")
prop("R02", "List operations rebuild the server's list at the client",
 "After every room addition, removal or move, the insert, delete and update operations sent for a list turn the client's previous window contents into the server's current window contents. Rooms that newly enter a window are reported so that their data is sent, and no index outside the requested windows is touched.",
 ["inputs", "histories"], "all window lists, list contents and single-room changes, repeated in any order",
 "The tests try selected moves in selected windows; index arithmetic errors show up only for particular gaps between windows.",
 ["sync3/ops.go", "sync3/range.go", "sync3/sort.go"], [("CalculateListOps, CalculateMoveIndexes, WriteInsertOp/WriteDeleteOp/WriteSwapOp", "sync3/ops.go")],
 "The index calculation and the operation writers are proved for all inputs; the end-to-end client replay is a bounded check.",
 observe=["the ops array of a list in a sync response"])
prop("R03", "A room list stays a consistent, correctly ordered permutation",
 "In every room list each room occurs once, the position looked up for a room is the position it is at, and rooms are absent exactly when they were not added or were removed. Sorting keeps the same rooms and orders them by the requested criteria, earlier criteria first, ties keeping their order.",
 ["histories", "inputs"], "all sequences of additions, removals and sorts",
 "The tests sort a few fixed lists; index consistency must survive every sequence of operations.",
 ["sync3/sort.go", "sync3/lists.go"], [("SortableRooms", "sync3/sort.go"), ("InternalRequestLists", "sync3/lists.go")],
 "Index consistency and permutation are proved for all inputs; window visibility is bounded.",
 state=[("roomIDs / roomIDToIndex", "order and inverse index", "sync3/sort.go")])
prop("R04", "Joined-room tracking is exact, from both sides",
 "The tracker says a user is joined to a room exactly when the last membership change it was told about for that user and room was a join. The rooms of a user, the users of a room and the invited count always agree with that, and joining or leaving ends an invitation.",
 ["histories", "schedules"], "all sequences of joins, leaves, invites, reloads and start-up loads",
 "Tests follow a few scripted histories; a stale entry on one side would leak events to a user who left.",
 ["sync3/tracker.go"], [("JoinedRoomsTracker", "sync3/tracker.go")],
 "All operations are proved against the relation they maintain; concurrent use is a bounded race-detector run.",
 state=[("roomIDToJoinedUsers / userIDToJoinedRooms / roomIDToInvitedUsers", "the membership relation, both ways", "sync3/tracker.go")])
prop("R15", "A list holds exactly the rooms its filters admit",
 "A room is in a list exactly when the user has not left it and it satisfies every filter condition the client set; an unset condition admits everything and negative conditions win over positive ones. A room whose successor the user has joined is never listed.",
 ["inputs", "histories"], "all filters and rooms, and all sequences of room updates and list assignments",
 "Tests try one condition at a time on a few rooms; the guarantee is about every combination.",
 ["sync3/request.go", "sync3/lists.go", "sync3/sort.go"], [("RequestFilters.Include", "sync3/request.go"), ("InternalRequestLists.SetRoom/AssignList", "sync3/lists.go")],
 "The filter decision is proved exactly for all inputs; list membership over histories is bounded.")
prop("R13", "Required state asked for is exactly the required state sent",
 "A state event belongs to a room's required_state exactly when some requested (type, state key) pair matches it, with '*' wildcards on either side, the user's own '$ME' and lazily loaded members; the database query built from the request never misses such an event. When several lists or subscriptions cover a room, their requests are combined by union, the largest timeline limit and the union of their heroes and old-room options, and the callers' own subscriptions stay untouched.",
 ["inputs"], "all required_state lists, all event types and state keys, all combinations of subscriptions",
 "Tests try a handful of pairs; wildcard rules interact, and combination must hold for every set of overlapping lists.",
 ["sync3/request.go", "internal/required_state_map.go", "sync3/handler/rooms_builder.go"], [("RoomSubscription.RequiredStateMap/Combine", "sync3/request.go"), ("RequiredStateMap.Include/QueryStateMap", "internal/required_state_map.go"), ("RoomsBuilder.BuildSubscriptions", "sync3/handler/rooms_builder.go")],
 "The matching rules, the query superset and the pairwise combination are proved for all inputs; the grouping of rooms by RoomsBuilder is bounded.")
prop("R14", "Request parameters are sticky",
 "Each request on a connection is interpreted on top of what the client said before: a parameter of a list it leaves out keeps its previous value, one it sets replaces it, a deleted list disappears and a new list without a sort order is sorted by recency. Room subscriptions accumulate, unsubscribing wins over subscribing in the same request, and exactly the lists and subscriptions that were there before and are there now are compared. Neither the stored nor the new request is altered.",
 ["histories", "inputs"], "all sequences of requests on a connection",
 "Tests send a few hand-written pairs of requests; stickiness has to hold for each of a dozen fields in every combination and over long histories.",
 ["sync3/request.go"], [("Request.ApplyDelta", "sync3/request.go"), ("RequestList.SortOrderChanged/FiltersChanged/TimelineLimitChanged", "sync3/request.go")],
 "Stickiness of every list field, the list and subscription sets and the old/new pairs are proved for all inputs; which subscriptions count as changed is additionally a bounded check.")
prop("R27", "Extensions are sticky and answer only for rooms in their scope",
 "An extension's settings keep their value until the client changes them; a new extension without a scope covers all lists and rooms, and only enabled extensions answer. Account data, typing notifications and receipts are returned for exactly the rooms in the response that the extension's scope covers: explicitly chosen rooms or lists, or all subscribed rooms or lists for '*'. Other users' private receipts and account data are never returned, and global account data only once, on the initial request. What one response gathers for a room is complete: later live updates in the same response neither drop nor repeat it.",
 ["inputs", "histories"], "all scopes, subscriptions, list windows and sequences of extension requests",
 "Tests try a few scopes with one room; the guarantee is about every combination of scope, window and data.",
 ["sync3/extensions/extensions.go", "sync3/extensions/account_data.go", "sync3/extensions/typing.go", "sync3/extensions/receipts.go"], [("Core.RoomInScope/ApplyDelta/InterpretAsInitial", "sync3/extensions/extensions.go"), ("ProcessInitial/AppendLive of the account data, typing and receipts extensions", "sync3/extensions")],
 "Scope and stickiness of each extension are proved for all inputs, assuming the database returns rows of the rooms it is asked for; exact contents against a real database are a bounded check.")
prop("R06", "A response is repeated until acknowledged and computed exactly once",
 "On one connection, a request is answered with the oldest response the client has not acknowledged by its position; repeating a request yields the identical stored response without the work being done again. A position the server never gave out is refused as expired and changes nothing. A request that fails leaves the connection as it was, so it can be retried. Requests on one connection never run at the same time, and a new one cancels the one in flight.",
 ["histories", "schedules", "crash_points"], "all sequences of requests, retries, stale or invented positions, changed bodies and handler failures on a connection",
 "The tests play a handful of scripts; losing or duplicating a response needs a particular mix of retry, changed body and failure.",
 ["sync3/conn.go", "sync3/request.go"], [("Conn.OnIncomingRequest / isOutstanding / tryRequest", "sync3/conn.go"), ("Request.Same", "sync3/request.go")],
 "The buffer invariant, refusal of unknown positions, one step per answered request, retry, purge of only acknowledged responses and unchanged state on failure are proved for all states; which stored response a pointer into the buffer denotes, request equality and concurrency are bounded.",
 state=[("serverResponses / lastPos / lastClientRequest", "unacknowledged responses, newest position, last processed request", "sync3/conn.go")])
prop("R07", "Connections are filed, found and closed exactly",
 "Looking up a connection yields the latest one opened under that user, device and connection name, unless it was closed, expired or fell behind. Closing by device or by user closes exactly their connections, shuts their handlers down and touches no one else's. A closing that finishes late never affects a connection opened since under the same name.",
 ["histories", "schedules"], "all sequences of opening, looking up, closing and expiring connections, with background expiry callbacks arriving at any later point",
 "Expiry callbacks run on their own goroutines; the tests never deliver one after a replacement was opened.",
 ["sync3/connmap.go"], [("ConnMap.CreateConn/Conn/Conns/CloseConnsForDevice/CloseConnsForUsers/closeConn", "sync3/connmap.go")],
 "All operations are proved against the maps they maintain and an assumed model of the TTL cache; interleavings of callbacks are bounded histories.",
 state=[("userIDToConn / connIDToConn / cache", "open connections by user and by ID", "sync3/connmap.go")])
prop("R08", "Events awaiting their transaction ID are held, never lost, reordered or repeated",
 "Every update given to a connection's transaction-ID buffer is passed on exactly once. Updates of one room are passed on in the order they arrived; an update is held back only if the user sent it and its transaction ID is not known yet, or if an earlier update of its room is still held; and learning the transaction ID, or the delay running out, releases everything up to that event. The proxy decides that no transaction ID is coming for an event exactly when every device of the sender that might have supplied it has been polled without one.",
 ["histories", "schedules"], "all sequences of updates, transaction IDs and timeouts; all orders in which devices' polls see an event",
 "Tests follow single events; loss or reordering needs several held rooms, late timers or repeated polls.",
 ["sync3/handler/txn_id_waiter.go", "sync2/txnid.go"], [("TxnIDWaiter.Ingest/PublishUpToNID", "sync3/handler/txn_id_waiter.go"), ("PendingTransactionIDs.MissingTxnID/SeenTxnID", "sync2/txnid.go")],
 "Queueing, release and order are proved for all states; the bookkeeping of devices that might supply a transaction ID and interleavings are bounded.",
 state=[("TxnIDWaiter.queues", "held updates per room, in order", "sync3/handler/txn_id_waiter.go")])
prop("R05", "Live updates reach exactly the users entitled to them",
 "Each live event, receipt or typing notification of a room is delivered exactly once to every connected user who is joined to the room, and to nobody else; the user who is removed by the event also gets it if they were joined or invited before, but never a ban or leave they could not have known about. The shared cache is told before any user. Only a user who newly joins is told to start the room afresh.",
 ["histories", "inputs"], "all sequences of membership changes, registrations, reloads and events",
 "Tests check a few rooms; a leak needs a particular history of joins, leaves and re-registrations.",
 ["sync3/dispatcher.go", "sync3/tracker.go"], [("Dispatcher.OnNewEvent/OnReceipt/OnEphemeralEvent/notifyListeners/Register/Unregister/UnregisterBulk", "sync3/dispatcher.go"), ("JoinedRoomsTracker", "sync3/tracker.go")],
 "Delivery to exactly the members, order, flags and (un)registration are proved for all states, assuming each user has a receiver of its own; bulk initial state and histories are bounded.",
 state=[("userToReceiver / jrt", "registered receivers and the membership relation", "sync3/dispatcher.go")])
prop("R16", "Room metadata, names and avatars follow the room's state",
 "What the server knows of a room outside its timeline - name, alias, avatar, heroes, member and invite counts, encryption, room type, predecessor and successor, space children, latest message time - always equals what the room's events so far say, also after a state reset and after a restart. The room name and avatar shown are computed from it by fixed rules and never name the user themself, and every change of what is shown counts as a change. Metadata handed to a reader is never changed behind its back.",
 ["histories", "inputs"], "all histories of state and timeline events, state resets and restarts; all combinations of names, aliases, heroes and counts",
 "Tests follow short histories with few members; wrong hero lists and stale names need particular orders of joins, leaves, profile changes and resets.",
 ["internal/roomname.go", "internal/types.go", "sync3/caches/global.go", "sync3/lists.go", "state/storage.go"], [("CalculateRoomName/CalculateAvatar/SameRoomName/SameRoomAvatar", "internal/roomname.go"), ("RoomMetadata.DeepCopy/RemoveHero/IsSpace", "internal/types.go"), ("GlobalCache.OnNewEvent/copyRoom/LoadRooms", "sync3/caches/global.go"), ("InternalRequestLists.SetRoom", "sync3/lists.go"), ("Storage.ResetMetadataState", "state/storage.go")],
 "The naming helpers, copies, change detection and hero bookkeeping are proved for all inputs; whole histories against a reference model, state resets and start-up loading on a real database are bounded checks.",
 state=[("GlobalCache.roomIDToMetadata", "current metadata of every room", "sync3/caches/global.go")])
prop("R26", "Only interesting events move a room up in a list",
 "In a list sorted by recency a room's time is that of the latest event which is of one of the list's bump_event_types, or of any event when the list names none. Until such an event is seen the time is the room's latest message time. An event that does not count for a list leaves the room's time in that list as it was, and one list's setting never affects another.",
 ["histories", "inputs"], "all sequences of live events and all bump_event_types of several lists",
 "Tests use one list and one type; interference between lists and first-time fallbacks need particular orders.",
 ["sync3/handler/connstate_live.go", "sync3/room.go", "sync3/lists.go"], [("connStateLive.processGlobalUpdates", "sync3/handler/connstate_live.go"), ("RoomConnMetadata.GetLastInterestedEventTimestamp", "sync3/room.go"), ("InternalRequestLists.SetRoom", "sync3/lists.go")],
 "The bumping rule, its fallback and the preservation across room updates are proved for all inputs; the list order over histories is bounded.",
 state=[("LastInterestedEventTimestamps", "per list recency of a room", "sync3/room.go")])
prop("R10", "A timeline shows what the user may see, newest last, without holes",
 "The initial timeline of a room for a user holds the newest events up to the asked position that lie in the user's latest stretch of membership: from their last join on, up to and including a leave or ban. It never reaches across an event whose predecessor is unknown, never holds events known only from a state block, never exceeds the limit and is ordered as received. The prev_batch token given is that of the first event at or after the oldest one shown. Who is joined at a position is decided by the last membership event up to it.",
 ["histories", "inputs"], "all histories of membership and message events, gappy timelines, positions and limits",
 "Tests insert a handful of events in storage order; leaks need a particular order of joins, leaves, gaps and positions.",
 ["state/storage.go", "state/event_table.go"], [("Storage.LatestEventsInRooms/visibleEventNIDsWithData/determineJoinedRoomsFromMemberships", "state/storage.go"), ("EventTable.SelectLatestEventsBetween/SelectClosestPrevBatch", "state/event_table.go")],
 "The membership and range computation, limits and the cut at gaps are proved for all inputs, given what the SQL returns; the SQL itself is a bounded check against a real database and a reference model.",
 observe=["timeline and prev_batch of a room's initial response"])
prop("R11", "Room state at every position is what the events so far add up to",
 "After any sequence of initial states and timelines, repeated or overlapping ones included, the stored state of a room after each timeline event holds exactly the newest event for every (type, state key) pair, and the current state is that after the last one. Each event is stored once, in the order received; delivering something a second time changes nothing. Positions handed out only grow.",
 ["histories", "inputs"], "all sequences of state blocks and timelines, with repetitions, gaps and redactions",
 "Tests accumulate a few fixed timelines; state corruption needs repeated and overlapping deliveries in particular orders.",
 ["state/accumulator.go", "state/event_table.go", "state/storage.go"], [("Accumulator.Initialise/Accumulate/calculateNewSnapshot/filterToNewTimelineEvents", "state/accumulator.go"), ("stateMap.Ingest", "state/storage.go"), ("Storage.RoomStateAfterEventPosition", "state/storage.go")],
 "The snapshot step, de-duplication and the choice of new events are proved for all inputs, given which events the database knows; snapshots over whole histories on a real database are a bounded check.",
 state=[("syncv3_snapshots / syncv3_events.before_state_snapshot_id", "state before each event and current state", "state/snapshot_table.go")])
prop("R09", "Each connection gets every event once, in order, and its lists match",
 "For a room the client has in view (in a window or subscribed), the events it receives after the room's initial data are exactly the room's later events the user may see, each once, in the order they were received, whatever the interleaving of storing, dispatching and requests. No event of a room is sent before the room itself, none from outside the user's membership, none of an ignored user's messages. After applying the operations of each response the client's lists equal the server's. Once everything is dispatched and processed the client's names, counts and unread counters of rooms in view are the current ones.",
 ["schedules", "histories"], "all interleavings of the poller storing events, the dispatcher delivering them, requests that change windows, sorting, limits and subscriptions, leaves, rejoins and ignored users",
 "Integration tests run one request after one batch of events; here the database snapshot of a room runs ahead of the live stream, which only happens when a request lands between storing and dispatching.",
 ["sync3/handler/connstate_live.go", "sync3/handler/connstate.go", "sync3/caches/user.go", "sync3/lists.go"], [("connStateLive.processLiveUpdate", "sync3/handler/connstate_live.go"), ("connStateLive.resort", "sync3/handler/connstate_live.go"), ("ConnState.buildRooms", "sync3/handler/connstate.go")],
 "At-most-once, ordering (positions never go back) and delivery of each live update are proved of processLiveUpdate for all inputs, given that loading a room from the database never yields an older position; the composition with the database, the dispatcher and requests is a bounded random exploration of the real ConnState.",
 state=[("loadPositions", "how far the client is in each room", "sync3/handler/connstate.go")])
prop("R25", "Lazily loaded rooms come with the members that matter",
 "In a room whose required_state asks for $LAZY members, every timeline event the client receives is preceded by or comes with the member event of its sender on that connection, whichever request, window or live update brought the event. A sender is only marked as sent along with their member event, and that mark is never lost.",
 ["histories", "schedules"], "all sequences of live events and requests on a lazily loading connection, including empty initial timelines and rooms re-sent in the same response",
 "Tests check one room with one sender; losing a member needs the room to be re-sent in the same response or to start with an empty timeline.",
 ["sync3/handler/lazy_member.go", "sync3/handler/connstate_live.go", "sync3/handler/connstate.go"], [("LazyCache.Add/AddUser/IsSet", "sync3/handler/lazy_member.go"), ("connStateLive.processLiveUpdate", "sync3/handler/connstate_live.go"), ("keepLazyMembers", "sync3/handler/connstate_live.go")],
 "The cache and the live path are proved for all inputs (a sender is marked iff the member event is in the response); the initial path through the database is bounded.",
 state=[("LazyCache", "members known to the client", "sync3/handler/lazy_member.go")])
prop("R17", "To-device messages are kept until acknowledged and given out in order",
 "Each device (a user and a device ID) has an inbox of to-device messages. A request returns the oldest messages after its since token, in the order they arrived and at most the limit, along with the token of the last one. Messages are deleted only when the same device acknowledges them with a since token at or after them; the first request of a device after a start acknowledges nothing. A room key request is dropped together with its cancellation only when it has not been sent yet. No other message is ever dropped, and no message reaches another device or user.",
 ["histories", "inputs"], "all sequences of inserts, requests with current, old, stale or invalid tokens, limits and live pokes on several devices, some with equal device IDs",
 "Tests follow a single device through a few steps; loss needs a stale token, an old token or a shared device ID.",
 ["sync3/extensions/todevice.go", "state/to_device_table.go"], [("ToDeviceRequest.ProcessInitial", "sync3/extensions/todevice.go"), ("ToDeviceTable.InsertMessages/Messages/DeleteMessagesUpToAndIncluding", "state/to_device_table.go")],
 "What is acknowledged, returned and remembered is proved of the extension for all inputs, given the table's contracts; the SQL behind them is a bounded check against a model on a real database.",
 state=[("syncv3_to_device_messages", "the inboxes", "state/to_device_table.go")])
prop("R18", "Device list changes and key counts reach each device exactly once",
 "Every change of a device list (changed or left) recorded for a device is returned to that device by its next non-initial request, exactly once, also when it is recorded while a request is being answered, and the latest state per target user wins. An initial request returns again what was last sent and deletes nothing. One-time key counts and fallback key types are returned on initial requests and after they changed, with their latest values. Data in a response is never replaced by a later live update in the same response.",
 ["histories", "schedules"], "all interleavings of device updates and requests, initial and not, of several devices",
 "Tests swap once; losing a change needs an update between reading and marking it as sent, or two pokes within one response.",
 ["sync3/extensions/e2ee.go", "state/device_data_table.go", "state/device_list_table.go", "internal/device_data.go"], [("E2EERequest.ProcessInitial/AppendLive", "sync3/extensions/e2ee.go"), ("DeviceDataTable.Select/Upsert", "state/device_data_table.go"), ("DeviceListTable.SelectTx/UpsertTx", "state/device_list_table.go")],
 "What the extension returns is proved for all inputs; the tables are a bounded check against a model on a real database, including concurrent updates.",
 state=[("syncv3_device_list_updates", "new and sent changes", "state/device_list_table.go")])
prop("R19", "A device's poller moves on only after everything in the response was stored",
 "The upstream position of a device moves past a response only once every part of it was taken in: device lists and key counts, account data, joined, left and invited rooms, to-device messages; parts which can never be stored (malformed data, a room without a create event) are skipped without holding back the other rooms. When something fails temporarily, the same response is asked for again from the same position and nothing of it is lost or, to-device messages included, stored twice. The position stored for a restart is never ahead of what is stored, so a crash at any point loses nothing; only a crash between storing to-device messages and storing the position may repeat those messages. A failing upstream request changes nothing, and only a revoked token (401/403) or more than 1000 consecutive failures ends the poller. Changes of key counts, fallback keys and device lists, including counts dropping to zero, are always passed on.",
 ["inputs", "crash_points", "fault_sequences"], "all responses, all failing database statements, all failing requests and all crash points",
 "Tests fail one receiver call at a time with mocks; the loss needs a specific statement failing in a specific part of the response, or a crash between two writes.",
 ["sync2/poller.go", "sync2/handler2/handler.go", "internal/errors.go", "state/storage.go", "state/accumulator.go"], [("poller.poll", "sync2/poller.go"), ("poller.parseRoomsResponse", "sync2/poller.go"), ("poller.parseE2EEData", "sync2/poller.go"), ("Handler.Accumulate/Initialise/OnAccountData", "sync2/handler2/handler.go")],
 "poll, parseE2EEData, parseGlobalAccountData, parseRoomsResponse, parseToDeviceMessages and shouldRetry are proved for all responses and all failures of the receiver; that the receiver reports failures, and the crash points, are a bounded check (generated upstream histories against a real database whose statements fail on demand). Receipts, unread counts, typing and transaction IDs are best effort by design.",
 state=[("poller since / syncv3_sync2_devices.since", "position of the device upstream", "sync2/poller.go")])
prop("R20", "A user's own view of their rooms follows what the server was told",
 "Unread counts, direct-message flag, tags, invitation, having left and the spaces a room belongs to, as a user's clients are shown them, always equal the latest counts, account data, invites, membership and space events given for that user; a new m.direct, tag or ignored-user list replaces the old one entirely, and nothing else about that or any other room changes. An invite ends when the user joins, rejects it or is banned, and a room the user joins again counts as theirs again. Each change is announced once to every open connection of the user, with the data as of that change, which is never altered afterwards. An invite and a leave show nothing of the room beyond what they themselves say.",
 ["histories", "inputs"], "all sequences of counts, account data, invites, leaves, kicks, bans, rejoins and space changes, with connections opening and closing",
 "Tests look at one kind of change in isolation; stale flags need several kinds in a particular order, such as leaving and joining again.",
 ["sync3/caches/user.go", "sync2/poller.go"], [("UserCache.OnUnreadCounts/OnNewEvent/OnSpaceUpdate/OnInvite/OnLeftRoom/OnAccountData", "sync3/caches/user.go"), ("UserCache.Subscribe/Unsubscribe/emitOnRoomUpdate", "sync3/caches/user.go"), ("NewInviteData", "sync3/caches/user.go")],
 "Everything but account data is proved for all inputs (a space that lists itself is excluded); account data, and the whole over histories against a reference model, are a bounded check.",
 state=[("UserCache.roomToData / ignoredUsers", "the user's view", "sync3/caches/user.go")])
prop("R28", "A request is served as the owner of its access token, or not at all",
 "A request is answered only on a connection of the very user and device its access token belongs to, as the homeserver says, whatever position, connection ID or device ID the client chose: it never sees account data of another user or messages for another device. A request whose token is missing, unknown to the homeserver or known to have expired is answered with 401 and no data. Pollers are started only with a token of their own device, the most recently used one; a token that expired is forgotten and the connections of its device are closed, and no other device is affected. The database holds access tokens only hashed and encrypted.",
 ["inputs", "histories"], "all sequences of logins, logouts, expiries and requests by any number of users and devices, with any IDs",
 "Tests use one or two well-behaved devices; mixing up two of them needs particular IDs or a particular order of logins, expiries and requests.",
 ["sync3/handler/handler.go", "sync2/tokens_table.go", "sync3/handler/ensure_polling.go"], [("SyncLiveHandler.setupConnection/identifyUnknownAccessToken/OnExpiredToken", "sync3/handler/handler.go"), ("TokensTable.Token/Insert/GetTokenAndSince/MaybeUpdateLastSeen/TokenForEachDevice/Delete", "sync2/tokens_table.go"), ("EnsurePoller", "sync3/handler/ensure_polling.go"), ("ConnID.String", "sync3/conn.go")],
 "Who a request is served as, which poller is asked for and what is refused is proved over assumed contracts of the token lookup and the homeserver's answer; the SQL, hashing and encryption, and whole histories against the real handler and Postgres, are a bounded check.",
 state=[("TokensTable rows", "whose token it is", "sync2/tokens_table.go"), ("ConnMap", "connections by user, device and ID", "sync3/connmap.go")])
prop("R29", "What the pollers store reaches waiting clients in order and in bounded time",
 "Every announcement a poller makes is received by the other half of the server exactly once and in the order it was made, and a client waiting for data is woken up by it within its timeout.",
 ["schedules"], "all schedules of pollers, listener and requests, with any load",
 "It depends on how goroutines are scheduled and how full buffers get, which tests do not control.",
 ["pubsub/pubsub.go", "sync3/handler/connstate_live.go"], [("PubSub.Notify/Listen", "pubsub/pubsub.go"), ("connStateLive.liveUpdate", "sync3/handler/connstate_live.go")], "")
na("R29", "Liveness and real time over channels, select and goroutine scheduling: the contracts of this family are partial-correctness statements about single functions, with no notion of fairness, waiting or elapsed time, so no contract within reach expresses it. (PubSub.Notify gives up after 5 s, by design.)")
#MORE

def main():
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}, ensure_ascii=False) + "\n")
    claimed = [p for p in P if p["id"] not in dict(NA)]
    m = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"], technique=p.get("tech", TECH), level=p.get("level", "proof"),
        level_note=p["note"] + NOTE_COMMON) for p in claimed], not_applicable=[dict(property=i, reason=r) for i, r in NA])
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")
if __name__ == "__main__":
    main()

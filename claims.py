BASE = "Seeded random search over executions of the real code under a deterministic simulator; a pass means no violation in the executions drawn (counts in the evidence file), not a proof. Trusts the rewriter/simulator to preserve Go semantics at statement granularity and the scenario oracle. "
CLAIMS = {
 "C01": BASE + "frame.Writer and frame.Reader over a simulated byte stream with arbitrary segmentation, short reads, stalls, cuts and write errors, against an independent codec.",
 "S01": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; duplicate/foreign delivery judged on every MESSAGE byte handed to the wire against a per-message ownership model.",
 "S02": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; conservation: every confirmed queue message must end settled, auto-acknowledged or be drained by a fresh consumer after all clients went.",
 "S03": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; per-producer order and returned-first order of every queue handing, with slack only for what other subscriptions can hold unseen.",
 "S04": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; per-subscription unsettled window, named settlement, unknown and repeated ids, against the model.",
 "S05": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; exactly-once to stable subscriptions, per-sender order, agreement between subscribers, nothing old or after the end.",
 "S06": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; visibility before COMMIT, after ABORT or failure, all-or-nothing, order at commit.",
 "S07": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; receipt bookkeeping per connection and confirmed-then-lost.",
 "S08": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; misbehaving clients (invalid frames, malformed bytes, random bytes, cuts) next to healthy ones; crash, disturbance, leak of goroutines.",
 "S09": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; volume bursts, self-publishing, fan-out; every request of a reading client answered, nothing starves, a fresh client is served.",
 "S14": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; queue storage that fails at random calls; no crash, corruption or starvation and recovery when errors stop.",
 "S15": BASE + "the unmodified server (accept loop, processor, connections, queues, topics, transactions, storage) in one simulated process with up to a dozen raw scripted clients over simulated links; resets, half-closes, write errors, black holes, stalls, fragmentation, scheduling freezes, task interleavings at statement granularity; clients that stop reading or stop inside a frame; everyone else and new clients still served within bounded simulated time.",
 "S10": BASE + "the unmodified server in one simulated process with raw scripted clients, simulated clock, network and listener; announced interval and every gap on each wire checked against the virtual clock, under traffic, stalled neighbours and freezes.",
 "S11": BASE + "the unmodified server in one simulated process with raw scripted clients, simulated clock, network and listener; clients that fall silent (also inside a frame) dropped within a bound and what they held released; clients that send something, even part of a frame, every interval never dropped.",
 "S12": BASE + "the unmodified server in one simulated process with raw scripted clients, simulated clock, network and listener; acceptable and unacceptable connect frames (credentials, versions, heart-beat, receipt), frames before and pipelined behind them, against a reference decision.",
 "S13": BASE + "the unmodified server in one simulated process with raw scripted clients, simulated clock, network and listener; runs of transient accept errors at arbitrary moments; next accept within a bound, everyone served, existing sessions undelayed, nothing leaked.",
}
CL = "the unmodified client (Connect, read, process and write loops, subscriptions, transactions) in one simulated process against a scripted broker over simulated links, several tasks per connection; late, wrong, repeated, reordered and missing receipts, ERROR frames, garbage, silence, pauses, resets, half-closes, write errors, black holes, stalls, fragmentation, freezes, statement-level interleavings; "
CLAIMS.update({
 "C02": BASE + CL + "every frame on the wire matched to exactly one call with its content, per-task order, nothing lost, repeated, interleaved or written by a call that reported failure.",
 "C03": BASE + CL + "every confirmed call judged by the receipts that had arrived for its own id; late, foreign and repeated ones answered for nobody.",
 "C04": BASE + CL + "every call's duration against its configured bounds and the time the connection ended; none left pending.",
 "C05": BASE + CL + "panics, self-deadlocks and livelocks anywhere in the library, for any peer bytes and interleaving of calls with failure and shutdown.",
 "C06": BASE + CL + "every subscription gets what had arrived, one error with the ERROR frame's content, then the end; transport closed, later calls fail, no goroutine left.",
 "C07": BASE + CL + "deliveries compared with the MESSAGE frames sent per subscription, content included, strays ignored, nothing after the end.",
 "C08": BASE + CL + "unsubscribe judged by its own confirmation, completeness of what came before it, single success, timeouts.",
 "C09": BASE + CL + "frames accepted before and calls made after a disconnect, receipt matching, concurrent disconnects, state of the transport.",
 "C10": BASE + CL + "every silent gap on the wire while it accepts data against the negotiated interval on the virtual clock; none sent when none negotiated.",
 "C11": BASE + CL + "silence of the peer against the negotiated interval and tolerance in both directions on the virtual clock.",
 "C12": BASE + "Connect, Dial and their context variants in one simulated process against a peer that answers properly, refuses, says something else, answers in part, closes, resets, does not read or stays silent, over failing and fragmenting links; outcome, duration, session data, connect frame, use of the connection afterwards and leftovers compared with a reference decision.",
 "C13": BASE + CL + "transaction membership and order on the wire, completion, ids and forms of acknowledgements per protocol version and mode.",
 "C14": BASE + CL + "all ids chosen by the library over several connections and tasks collected from the wire and the API, no duplicates.",
})
CLAIMS["E01"] = BASE + "two to five connections of the unmodified client, several tasks each, against the unmodified server in one simulated process over slow, fragmenting, stalling and failing links; every operation on a healthy connection succeeds with its effect, contents unchanged, nothing delivered again that was acknowledged, transactions whole, order kept, and a fresh client drains exactly what is left."
NA = {}
for _p in props:
    NA.setdefault(_p["id"], "check not built yet")

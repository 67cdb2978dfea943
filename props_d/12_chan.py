
P("C01", "A channel delivers every message once, in order",
  "Messages sent on a channel are received in the order their sends took place, each exactly once, whether they passed through the buffer, went straight to a waiting receiver or came from waiting senders; a channel buffers exactly its capacity. "
  "A send or receive that cannot proceed waits, and is resumed exactly once, when its message has been handed over or the channel is closed; the try forms return false instead of waiting. "
  "Closing wakes all waiters with an error, leaves buffered messages receivable, and makes later sends, a second close and receives on the drained channel raise an error.",
  ["inputs", "histories", "schedules"], "all message values, all short histories of sends, receives and close at the stated capacities, with the waiting coroutine's stack in place or swapped out",
  "the interleavings of waiting senders, receivers, ring wrap-around and close, and messages read from swapped-out stacks, are not enumerable by running programs",
  ["runtime/rt_chan.c", "runtime/linkco.c", "std/builtin/chan.n"],
  [("ring buffer", "runtime/rt_chan.c buf_next_ref"), ("wait queues", "runtime/rt_chan.c waitq_push"), ("hand-over through stacks", "runtime/rt_chan.c rt_msg_transmit")],
  ["message received, result and error of each operation, which coroutine is resumed"],
  "The real channel code runs symbolically under a model of coroutines: yielding runs other coroutines' operations until the waiter has been made ready. Channel locks are checked to be taken and released in pairs.",
  [Ob("try_1", "chan.c", "h_chan_try", unwind=14, defs={"H_TRY": 1, "CAP": 1, "OPS": 4}, bounds="capacity 1, any 4 non-blocking operations, then close and drain"),
   Ob("try_2", "chan.c", "h_chan_try", unwind=14, defs={"H_TRY": 1, "CAP": 2, "OPS": 4}, bounds="capacity 2, any 4 non-blocking operations, then close and drain", thorough={"OPS": 6}),
   Ob("try_0", "chan.c", "h_chan_try", unwind=14, defs={"H_TRY": 1, "CAP": 0, "OPS": 2}, bounds="unbuffered, any 2 non-blocking operations, then close"),
   Ob("send_0", "chan.c", "h_chan_send", unwind=14, defs={"H_SEND": 1, "CAP": 0}, bounds="unbuffered, 1..2 waiting senders on one stack, then receives or close"),
   Ob("send_2", "chan.c", "h_chan_send", unwind=38, defs={"H_SEND": 1, "CAP": 2}, bounds="capacity 2 and any ring position, 1..2 waiting senders on one stack, then receives or close"),
   Ob("send_1_multi", "chan.c", "h_chan_send", unwind=26, defs={"H_SEND": 1, "CAP": 1, "SAME": 0}, bounds="capacity 1, 1..2 waiting senders on stacks of their own"),
   Ob("recv_0", "chan.c", "h_chan_recv", unwind=14, defs={"H_RECV": 1, "CAP": 0}, bounds="unbuffered, 1..2 waiting receivers on one stack, then sends or close"),
   Ob("recv_2", "chan.c", "h_chan_recv", unwind=38, defs={"H_RECV": 1, "CAP": 2}, bounds="capacity 2 and any ring position, 1..2 waiting receivers on one stack"),
   Ob("recv_0_multi", "chan.c", "h_chan_recv", unwind=14, defs={"H_RECV": 1, "CAP": 0, "SAME": 0}, bounds="unbuffered, 1..2 waiting receivers on stacks of their own"),
   ], RT + ["each operation runs under the channel's lock, so operations of different threads do not interleave inside it; the lock itself is the platform's"])

SELST = ["buffered and empty", "buffered and full", "unbuffered and idle", "with a waiting sender", "with a waiting receiver", "closed", "closed with a message"]
P("C02", "Select performs exactly one case that can proceed",
  "A select performs exactly one of its cases, and only one that can proceed: the other cases have no effect on any channel. "
  "If no case can proceed it takes the default when there is one, and otherwise waits until an operation on one of its channels meets a fitting case, is resumed exactly once and then leaves nothing queued on any of its channels. "
  "This holds for any mixture of send and receive cases, including several cases on the same channel, and every channel is locked and unlocked in pairs.",
  ["inputs", "histories", "schedules"], "all pairs of channel states, all assignments of two or three cases to two channels, all message values, every order of channel addresses",
  "a select over the same channel in several cases, or resumed while a second channel becomes ready, depends on timing that tests do not control",
  ["runtime/rt_chan.c", "runtime/linkco.c"],
  [("lock order", "runtime/rt_chan.c sellock"), ("enqueue and dequeue on all channels", "runtime/rt_chan.c rt_chan_select"), ("single wake-up", "runtime/rt_chan.c waitq_pop")],
  ["case chosen, messages transferred, coroutines resumed, locks held"],
  "As for channels; the select runs symbolically against every combination of channel states, and as a waiter against every single operation of another coroutine followed by further ones.",
  [Ob("select_%d" % s, "chan.c", "h_select", unwind=86, defs={"H_SEL": 1, "STA": s, "RND": s % 2}, bounds="two cases over two channels, one %s, the other in any state" % SELST[s]) for s in range(7)] +
  [Ob("select_wait_%d_%d" % (n, ns), "chan.c", "h_select_wait", unwind=50, defs={"H_SELW": 1, "NCASES": n, "NS": ns, "SECOND": int(n == 2), "RND": (ns * 5 + n) % 6}, bounds="%d waiting cases, %d of them sends, over two unbuffered channels, one random order" % (n, ns)) for n in (2, 3) for ns in range(n + 1)] + [
   ], RT + ["each operation runs under the channel locks; the locks themselves are the platform's"])

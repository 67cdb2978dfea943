// Channels: the real rt_chan.c and linkco.c with modelled coroutines. A coroutine that yields runs the other
// coroutines' operations (real code again) until one of them has made it ready.
#define VP_OWN_BARRIER
#define VP_OWN_THROW
#define VP_OWN_MALLOC
#include "rt_env.h"
#include "runtime/processor.h"

#define NCO 4
static coroutine_t vp_co[NCO];
static n_processor_t vp_p;
static aco_share_stack_t vp_sstk[NCO];
static int thrown[NCO];      // errors raised in each coroutine
// Stacks: coroutine i runs on stack home(i), all on one (SAME) or each on its own processor's. While another
// coroutine runs on the same stack, a waiting one's part lies in its save area.
#ifndef SAME
#define SAME 1
#endif
#define home(i) (SAME ? 0 : (i))
#define STK 16
static uint8_t stk[NCO][STK], sav[NCO][STK];
static int cur;              // running coroutine
static int ready[NCO];       // times made ready since it last ran
static n_chan_t *chs[2];
static bool held_of[2];
// channels lie in one block so that their addresses are ordered, the second above or below the first
static n_chan_t chan_mem[2];
static int chan_next, chan_swap;
static void *vp_alloc(uint64_t size) { return calloc(1, size); }
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
    if (rtype == &vp_types[1]) return &chan_mem[chan_next++ ^ chan_swap];
    return vp_alloc(size);
}
void rti_throw(char *msg, bool panic) { thrown[cur]++; }
bool gc_barrier;
n_processor_t *processor_get(void) { return &vp_p; }
coroutine_t *coroutine_get(void) { return &vp_co[cur]; }
void rti_write_barrier_ptr(void *slot, void *new_obj, bool b) { *(void **) slot = new_obj; }
void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) { memmove(dst, src, rtype->storage_size); }
linkco_t *global_linkco_cache;
mutex_t global_linkco_locker;
rtype_t linkco_rtype = {.gc_heap_size = sizeof(linkco_t), .storage_size = sizeof(linkco_t)};
rtype_t vec_rtype = {.gc_heap_size = sizeof(n_vec_t), .storage_size = sizeof(n_vec_t)};
static int vp_lock(void *m) {
    for (int i = 0; i < 2; i++)
        if (chs[i] && m == (void *) &chs[i]->lock) {
            VP_ASSERT(!held_of[i], "a channel lock is not taken while it is held");
            held_of[i] = true;
        }
    return 0;
}
static int vp_unlock(void *m) {
    for (int i = 0; i < 2; i++)
        if (chs[i] && m == (void *) &chs[i]->lock) {
            VP_ASSERT(held_of[i], "a channel lock is released only by its holder, once");
            held_of[i] = false;
        }
    return 0;
}
static bool unlocked(void) { return !held_of[0] && !held_of[1]; }
#define pthread_mutex_lock(m) vp_lock(m)
#define pthread_mutex_unlock(m) vp_unlock(m)
#define pthread_mutex_init(m, a) 0
#define pthread_spin_lock(m) 0
#define pthread_spin_unlock(m) 0
int mutex_lock(mutex_t *m) { return 0; }
int mutex_unlock(mutex_t *m) { return 0; }

static void others(int me); // what the other coroutines do while `me` waits
static void vp_yield(coroutine_t *co, unlock_fn fn, void *arg) {
    int me = cur;
    VP_ASSERT(co == &vp_co[me], "only the running coroutine yields");
    VP_ASSERT(ready[me] == 0, "a coroutine about to wait has not been made ready");
    co->status = CO_STATUS_WAITING;
    fn(co, arg);
    VP_ASSERT(unlocked(), "a waiting coroutine holds no channel lock");
    if (SAME) {
        for (int i = 0; i < STK - 4; i++) sav[me][i] = stk[0][i + 4];
        co->aco.save_stack.ptr = sav[me];
        co->aco.save_stack.valid_sz = STK - 4;
        vp_sstk[0].owner = NULL;
        for (int i = 0; i < STK; i++) stk[0][i] = 0xee;
    }
    others(me);
    VP_ASSERT(ready[me] <= 1, "a waiting coroutine is made ready at most once");
    VP_ASSUME(ready[me] == 1); // resumed only when ready
    ready[me] = 0;
    cur = me;
    if (SAME) {
        for (int i = 0; i < STK - 4; i++) stk[0][i + 4] = sav[me][i];
        vp_sstk[0].owner = &co->aco;
    }
    co->status = CO_STATUS_RUNNING;
}
static void vp_ready(coroutine_t *co) {
    VP_ASSERT(co >= vp_co && co < vp_co + NCO, "a coroutine is made ready");
    co->status = CO_STATUS_RUNNABLE;
    ready[co - vp_co]++;
}
#define co_yield_waiting(co, fn, arg) vp_yield(co, fn, arg)
#define co_ready(co) vp_ready(co)
// the random order select looks at cases in
static int rnd, rnd_n;
static int vp_rand(void) { int i = rnd_n++; return i % 3 == 1 ? rnd % 2 : i % 3 == 2 ? rnd / 2 % 3 : 0; }
#define rand() vp_rand()
#include "runtime/nutils/vec.c"
#include "runtime/linkco.c"
#include "runtime/rt_chan.c"

typedef struct { uint32_t a; } msg_t;
static msg_t any_msg(void) { msg_t m = {vp_u32()}; return m; }
static int64_t ch_h, el_h;
static void init(void) {
    el_h = vp_mktype(0, TYPE_UINT32, sizeof(msg_t));
    ch_h = vp_mktype(1, TYPE_CHAN, sizeof(n_chan_t));
    for (int i = 0; i < NCO; i++) {
        vp_co[i].p = &vp_p;
        vp_co[i].aco.share_stack = &vp_sstk[home(i)];
        vp_sstk[i].align_retptr = stk[i] + STK;
    }
}
static n_chan_t *mk(int i, int cap) { // as chan.n does: one slot more than the capacity
    chs[i] = NULL;
    n_chan_t *c = rt_chan_new(ch_h, el_h, cap ? cap + 1 : 0);
    chs[i] = c;
    return c;
}

#define slot(i) ((msg_t *) (stk[home(i)] + 8))
static bool do_send(n_chan_t *c, int i, msg_t m, bool try) {
    cur = i;
    vp_sstk[home(i)].owner = &vp_co[i].aco;
    *slot(i) = m;
    bool r = rt_chan_send(c, slot(i), try);
    VP_ASSERT(cur == i && unlocked(), "no channel lock is held after a send");
    return r;
}
static bool do_recv(n_chan_t *c, int i, msg_t *m, bool try) {
    cur = i;
    vp_sstk[home(i)].owner = &vp_co[i].aco;
    slot(i)->a = 0xaaaa5555;
    bool r = rt_chan_recv(c, slot(i), try);
    VP_ASSERT(cur == i && unlocked(), "no channel lock is held after a receive");
    *m = *slot(i);
    return r;
}
static void do_close(n_chan_t *c, int i) {
    cur = i;
    vp_sstk[home(i)].owner = &vp_co[i].aco;
    rt_chan_close(c);
    VP_ASSERT(cur == i && unlocked(), "no channel lock is held after a close");
}
#define EQ(x, y) ((x).a == (y).a)

#ifndef CAP
#define CAP 2
#endif
#ifndef OPS
#define OPS 5
#endif
#ifdef H_TRY
static void others(int me) { VP_ASSERT(0, "a try operation never waits"); }
// any history of non-blocking operations is that of a bounded queue
void h_chan_try(void) {
    init();
    n_chan_t *c = mk(0, CAP);
    msg_t q[OPS];
    int lo = 0, hi = 0;
    for (int k = 0; k < OPS; k++) {
        if (vp_bool()) {
            msg_t m = any_msg();
            bool r = do_send(c, 0, m, true);
            VP_ASSERT(r == (hi - lo < CAP), "a try-send succeeds exactly when fewer messages than the capacity are queued");
            if (r) q[hi++] = m;
        } else {
            msg_t m;
            bool r = do_recv(c, 0, &m, true);
            VP_ASSERT(r == (hi > lo), "a try-receive succeeds exactly when a message is queued");
            if (r) {
                VP_ASSERT(EQ(m, q[lo]), "messages are received in the order they were sent");
                lo++;
            }
        }
        VP_ASSERT(thrown[0] == 0, "no error on an open channel");
    }
    VP_ASSERT(!rt_chan_is_closed(c), "still open");
    if (CAP == 0 || (hi > 1 && lo > 0)) VP_REACH("history");
    do_close(c, 0);
    VP_ASSERT(rt_chan_is_closed(c) && thrown[0] == 0, "closed");
    msg_t m;
    for (int k = 0; k < CAP; k++) {
        if (lo == hi) break;
        VP_ASSERT(do_recv(c, 0, &m, vp_bool()), "queued messages can be received after close");
        VP_ASSERT(EQ(m, q[lo]), "in order");
        lo++;
    }
    VP_ASSERT(lo == hi && thrown[0] == 0, "all of them");
    VP_ASSERT(!do_recv(c, 0, &m, false) && thrown[0] == 1, "a receive from a drained closed channel raises an error");
    VP_ASSERT(!do_send(c, 0, any_msg(), vp_bool()) && thrown[0] == 2, "a send on a closed channel raises an error");
    do_close(c, 0);
    VP_ASSERT(thrown[0] == 3, "closing twice raises an error");
    VP_ASSERT(!do_recv(c, 0, &m, true), "nothing more is received");
}
#endif

#ifdef H_SEND
// coroutine 0 and possibly coroutine 1 wait to send on a full channel; coroutine 2 receives or closes
static int n_wait, n_wake, closes;
static msg_t q[CAP + 3];
static n_chan_t *c0;
static int depth;
static void others(int me) {
    msg_t m;
    VP_ASSERT(me == depth, "the sender waits");
    depth++;
    if (depth < n_wait) {
        q[CAP + depth] = any_msg();
        bool r = do_send(c0, depth, q[CAP + depth], false);
        int who = me + 1;
        if (closes && n_wake < who + 1) VP_ASSERT(!r && thrown[who] == 1, "a send overtaken by close raises an error");
        else VP_ASSERT(r && thrown[who] == 0, "a send whose message was taken succeeds");
        VP_REACH("second sender");
        return;
    }
    VP_ASSERT(!do_send(c0, 3, any_msg(), true) && thrown[3] == 0, "a try-send on a full channel fails without error");
    int total = CAP + n_wait;
    // n_wake receives each let one sender in; then close, or receive everything
    for (int k = 0; k < n_wake; k++) {
        VP_ASSERT(do_recv(c0, 2, &m, k & 1), "a receive finds a message");
        VP_ASSERT(EQ(m, q[k]), "messages are received in the order they were sent");
        VP_ASSERT(ready[k] == 1, "the longest waiting sender is made ready");
        for (int j = k + 1; j < n_wait; j++) VP_ASSERT(ready[j] == 0, "senders that must still wait are not made ready");
    }
    if (closes) {
        do_close(c0, 2);
        total = CAP + n_wake; // messages of senders that were still waiting are lost with the error they get
    }
    for (int k = n_wake; k < total; k++) {
        VP_ASSERT(do_recv(c0, 2, &m, k & 1), "a receive finds a message");
        VP_ASSERT(EQ(m, q[k]), "messages are received in the order they were sent");
    }
    VP_ASSERT(!do_recv(c0, 2, &m, true), "each message is received once");
    for (int j = 0; j < n_wait; j++) VP_ASSERT(ready[j] == 1, "every waiting sender is made ready once");
    VP_ASSERT(thrown[2] == 0, "the receiver gets no error");
    VP_REACH("senders served");
}
static void c_send(int k) {
    n_wait = 1 + k % 2;
    closes = k / 2 % 2;
    n_wake = closes ? k / 4 % (n_wait + 1) : n_wait;
    int rot = k / 12 % (CAP + 1); // where the ring starts
    init();
    c0 = mk(0, CAP);
    msg_t m;
    for (int i = 0; CAP && i < rot; i++) {
        do_send(c0, 0, any_msg(), false);
        do_recv(c0, 0, &m, false);
    }
    for (int i = 0; i < CAP; i++) {
        q[i] = any_msg();
        VP_ASSERT(do_send(c0, 3, q[i], i & 1), "a send on a channel that is not full completes");
    }
    q[CAP] = any_msg();
    bool r = do_send(c0, 0, q[CAP], false);
    if (closes && n_wake == 0) VP_ASSERT(!r && thrown[0] == 1, "a send overtaken by close raises an error");
    else VP_ASSERT(r && thrown[0] == 0, "a send whose message was taken succeeds");
    VP_REACH("first sender");
}
void h_chan_send(void) { VP_CASES(12 * (CAP + 1), c_send); }
#endif

#ifdef H_RECV
// coroutine 0 and possibly coroutine 1 wait to receive from an empty channel; coroutine 2 sends or closes
static int n_wait, n_msg, closes;
static msg_t q[4];
static n_chan_t *c0;
static int depth;
static void check_recv(int who, bool r, msg_t m) {
    if (who < n_msg) VP_ASSERT(r && thrown[who] == 0 && EQ(m, q[who]), "waiting receivers get the messages in order");
    else VP_ASSERT(!r && thrown[who] == 1, "a receiver overtaken by close gets an error");
}
static void others(int me) {
    msg_t m;
    VP_ASSERT(me == depth, "the receiver waits");
    depth++;
    if (depth < n_wait) {
        int who = depth;
        bool r = do_recv(c0, who, &m, false);
        check_recv(who, r, m);
        VP_REACH("second receiver");
        return;
    }
    VP_ASSERT(!do_recv(c0, 3, &m, true) && thrown[3] == 0, "a try-receive from an empty channel fails without error");
    for (int k = 0; k < n_msg; k++) {
        q[k] = any_msg();
        VP_ASSERT(do_send(c0, 2, q[k], k & 1), "a send to a waiting receiver completes at once");
        VP_ASSERT(ready[k] == 1, "the longest waiting receiver is made ready");
        for (int j = k + 1; j < n_wait; j++) VP_ASSERT(ready[j] == 0, "receivers without a message are not made ready");
    }
    if (closes) do_close(c0, 2);
    for (int j = 0; j < n_wait; j++) VP_ASSERT(ready[j] == 1, "every waiting receiver is made ready once");
    VP_ASSERT(!do_recv(c0, 3, &m, true), "each message is received once");
    VP_ASSERT(thrown[2] == 0, "the sender gets no error");
    VP_REACH("receivers served");
}
static void c_recv(int k) {
    n_wait = 1 + k % 2;
    closes = k / 2 % 2;
    n_msg = closes ? k / 4 % (n_wait + 1) : n_wait;
    int rot = k / 12 % (CAP + 1);
    init();
    c0 = mk(0, CAP);
    msg_t m;
    for (int i = 0; CAP && i < rot; i++) {
        do_send(c0, 0, any_msg(), false);
        do_recv(c0, 0, &m, false);
    }
    bool r = do_recv(c0, 0, &m, false);
    check_recv(0, r, m);
    VP_REACH("first receiver");
}
void h_chan_recv(void) { VP_CASES(12 * (CAP + 1), c_recv); }
#endif

#if defined(H_SEL) || defined(H_SELW) || defined(H_SELQ)
// cases of a select: sends first, then receives; case i is on channel on[i]
static int n_send, n_recv, on[3];
static msg_t sent[3];
static scase cs[3];
static msg_t gotm;
static int do_select(int i, bool try) {
    cur = i;
    vp_sstk[home(i)].owner = &vp_co[i].aco;
    for (int j = 0; j < n_send + n_recv; j++) {
        cs[j].chan = chs[on[j]];
        sent[j] = any_msg();
        msg_t *m = (msg_t *) (stk[home(i)] + 4 + 4 * j);
        if (j < n_send) *m = sent[j];
        else m->a = 0xaaaa5555;
        cs[j].msg_ptr = m;
    }
    int r = rt_chan_select(cs, n_send, n_recv, try);
    VP_ASSERT(cur == i && unlocked(), "no channel lock is held after a select");
    if (r >= n_send) gotm = *(msg_t *) cs[r].msg_ptr;
    return r;
}
// nothing else is queued on channel i: neither messages, nor waiting senders, nor waiting receivers
static void quiet(int i, int who) {
    msg_t m;
    if (rt_chan_is_closed(chs[i])) return;
    VP_ASSERT(!do_recv(chs[i], who, &m, true), "no sender and no message is left behind");
}
#endif

#ifdef H_SEL
#ifndef SWAP
#define SWAP 0
#endif
// channel states: 0 buffered, empty; 1 buffered, full; 2 unbuffered, idle; 3 a sender waits; 4 a receiver waits; 5 closed; 6 closed with a message
static int st[2], shape;
static msg_t held_msg[2];
static bool tries;
static bool sendable(int i) { return st[i] == 0 || st[i] == 4; }
static bool recvable(int i) { return st[i] == 1 || st[i] == 3 || st[i] == 6; }
static bool closed(int i) { return st[i] >= 5; }
static bool can(int j) {
    int i = on[j];
    return closed(i) || (j < n_send ? sendable(i) : recvable(i));
}
static int stage;
static void run_select(void) {
    bool any = false;
    for (int j = 0; j < n_send + n_recv; j++) any = any || can(j);
    int r = do_select(0, tries);
    if (!any) {
        VP_ASSERT(r == -1, "a select with a default takes it when no case can proceed");
        VP_REACH("default");
    } else {
        VP_ASSERT(r >= 0 && r < n_send + n_recv, "a case is chosen");
        VP_ASSERT(can(r), "only a case that can proceed is chosen");
        VP_REACH("case");
    }
    VP_ASSERT(thrown[0] == 0, "select raises no error");
    for (int i = 0; i < 2; i++) {
        bool hit = r >= 0 && on[r] == i;
        bool is_send = hit && r < n_send && !closed(i);
        bool is_recv = hit && r >= n_send && recvable(i);
        msg_t m;
        if (hit && closed(i) && !is_recv) VP_ASSERT(!rt_chan_is_successful(chs[i]), "a case on a closed channel reports failure");
        if (is_recv) VP_ASSERT(EQ(gotm, held_msg[i]), "the case receives the oldest message of its channel");
        if (st[i] == 3) VP_ASSERT(ready[1 + i] == is_recv, "the waiting sender goes on exactly when its message was taken");
        if (st[i] == 4) VP_ASSERT(ready[1 + i] == is_send, "the waiting receiver goes on exactly when it got a message");
        if (st[i] == 0 || st[i] == 1 || st[i] == 6) { // contents of the buffer afterwards
            bool full = st[i] == 0 ? is_send : !is_recv;
            VP_ASSERT(do_recv(chs[i], 3, &m, true) == full, "only the chosen case changes the buffer of a channel");
            if (full) VP_ASSERT(EQ(m, is_send ? sent[r] : held_msg[i]), "contents of the buffer");
        }
        if (st[i] == 2) quiet(i, 3);
    }
    // let whoever still waits go
    for (int i = 0; i < 2; i++) {
        msg_t m;
        if (st[i] == 3 && !ready[1 + i]) VP_ASSERT(do_recv(chs[i], 3, &m, true) && EQ(m, held_msg[i]), "the other sender still waits");
        if (st[i] == 4 && !ready[1 + i]) {
            held_msg[i] = any_msg();
            VP_ASSERT(do_send(chs[i], 3, held_msg[i], true), "the other receiver still waits");
        } else if (st[i] == 4) held_msg[i] = sent[r];
    }
}
static void setup(int i) {
    if (i == 2) { run_select(); return; }
    n_chan_t *c = chs[i];
    held_msg[i] = any_msg();
    msg_t m;
    stage = i + 1;
    switch (st[i]) {
        case 6:
        case 1: do_send(c, 3, held_msg[i], false); if (st[i] == 6) do_close(c, 3); setup(i + 1); break;
        case 3: VP_ASSERT(do_send(c, 1 + i, held_msg[i], false), "the sender completes"); break;
        case 4: VP_ASSERT(do_recv(c, 1 + i, &m, false) && EQ(m, held_msg[i]), "the receiver completes with the message"); break;
        case 5: do_close(c, 3); setup(i + 1); break;
        default: setup(i + 1);
    }
}
static void others(int me) { VP_ASSERT(me != 0, "a select with a default never waits"); setup(stage); }
static void c_sel(int k) {
    st[0] = STA;
    st[1] = k % 7;
    k /= 7;
    n_send = k % 3;
    n_recv = 2 - n_send;
    on[0] = k / 3 % 2;
    on[1] = k / 6 % 2;
    chan_swap = SWAP;
    rnd = RND;
    bool any = false;
    for (int j = 0; j < 2; j++) any = any || can(j);
    tries = !any || vp_bool();
    init();
    for (int i = 0; i < 2; i++) mk(i, st[i] < 2 || st[i] == 6 ? 1 : 0);
    setup(0);
}
void h_select(void) { VP_CASES(7 * 12, c_sel); }
#endif

#ifdef H_SELW
// a select that waits on NCASES cases of idle unbuffered channels, until coroutine 1 sends, receives or closes
static int act, achan, second;
static msg_t am, am2;
static bool acted;
static int matches(int i, bool send) { // cases that a send (or receive) on channel i can meet
    int n = 0;
    for (int j = 0; j < n_send + n_recv; j++) n += on[j] == i && (j >= n_send) == send;
    return n;
}
static bool used(int i) { return matches(i, true) + matches(i, false) > 0; }
static void others(int me) {
    VP_ASSERT(me == 0, "the select waits");
    n_chan_t *c = chs[achan];
    bool r = true;
    am = any_msg();
    if (act == 0) r = do_send(c, 1, am, true);
    else if (act == 1) r = do_recv(c, 1, &am, true);
    else do_close(c, 1);
    bool hit = act == 0 ? matches(achan, true) : act == 1 ? matches(achan, false) : used(achan);
    VP_ASSERT(r == (act == 2 || hit), "an operation meets the waiting select exactly when a case fits");
    VP_ASSERT(ready[0] == hit, "the select is made ready exactly when one of its cases can proceed");
    acted = hit;
    if (!hit) return; // not resumed
    // before the select runs again, no other operation may meet it a second time
    msg_t m;
    for (int i = 0; i < 2; i++) {
        if (act == 2 && i == achan) continue;
        VP_ASSERT(!do_send(chs[i], 1, any_msg(), true), "a select that has been served takes no further message");
        VP_ASSERT(!do_recv(chs[i], 1, &m, true), "a select that has been served gives no further message");
        if (second && i != achan) do_close(chs[i], 1);
    }
    VP_ASSERT(ready[0] == 1, "the select is made ready once");
}
static void c_selw(int k) {
    act = k % 3;
    achan = k / 3 % 2;
    second = SECOND;
    n_send = NS;
    n_recv = NCASES - NS;
    k /= 6;
    // the two channels play the same part, so the first case can be on the first
    for (int j = 1; j < NCASES; j++) on[j] = (k >> (j - 1)) & 1;
    chan_swap = (k >> (NCASES - 1)) & 1;
    rnd = RND;
    init();
    mk(0, 0);
    mk(1, 0);
    int r = do_select(0, false);
    VP_REACH("woken");
    VP_ASSERT(r >= 0 && r < NCASES && on[r] == achan, "the chosen case is on the channel that was acted on");
    if (act == 0) VP_ASSERT(r >= n_send && EQ(gotm, am), "a receive case gets the message");
    if (act == 1) VP_ASSERT(r < n_send && EQ(sent[r], am), "a send case's message is received");
    if (act == 2) VP_ASSERT(!rt_chan_is_successful(chs[achan]), "a case on a closed channel reports failure");
    VP_ASSERT(thrown[0] == 0, "select raises no error");
    msg_t m;
    for (int i = 0; i < 2; i++) {
        if (rt_chan_is_closed(chs[i])) continue;
        VP_ASSERT(!do_send(chs[i], 1, any_msg(), true), "no receive case is left queued");
        VP_ASSERT(!do_recv(chs[i], 1, &m, true), "no send case is left queued");
        do_close(chs[i], 1); // wakes nobody
    }
    VP_ASSERT(ready[0] == 0 && thrown[1] == 0, "nobody is woken by what is left");
}
void h_select_wait(void) { VP_CASES(6 * (1 << NCASES), c_selw); }
#endif

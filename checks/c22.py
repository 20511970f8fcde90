"""C22 ordered containers keep order and contents."""
import random
from sv import linked_any, tl
from sv.pyvc import And, Ite, Or, Not, Implies, time_stub_exact
from sv.run import Check, Proof, Sweep, Case

X = (time_stub_exact,)
BIG = 10 ** 6


def _T():
    from sampo.schemas.time import Time
    return Time


# ---- general timeline ------------------------------------------------------------------------------------------

def general(k):
    def h(H):
        from sampo.scheduler.timeline.general_timeline import GeneralTimeline
        from sampo.schemas.types import EventType
        Time = _T()
        t = GeneralTimeline()
        s = [H.int(f's{i}', 0, BIG, rhi=6) for i in range(k)]
        d = [H.int(f'd{i}', 0, BIG, rhi=4) for i in range(k)]
        for i in range(k):
            t.update_timeline(Time(s[i]), Time(d[i]), ('work', i))
        H.check(len(t) == 2 * k + 1, 'two events for each booking and the initial one')
        times = [t[i].value for i in range(2 * k + 1)]
        H.check(H.eq(times[0], 0), 'the first checkpoint is the beginning')
        H.check(H.all(a <= b for a, b in zip(times, times[1:])), 'checkpoints are in time order')
        ev = list(t._timeline)
        pos = {}
        for j, (et, time, idx, obj) in enumerate(ev):
            pos.setdefault((obj, et), []).append((j, time.value))
        for i in range(k):
            a = pos.get((('work', i), EventType.START), [])
            b = pos.get((('work', i), EventType.END), [])
            H.check(len(a) == 1 and len(b) == 1, 'one start and one end for each booking')
            H.check(And(a[0][1] == s[i], b[0][1] == s[i] + d[i]), 'events lie at the start and at the end of the booking')
            H.check(a[0][0] < b[0][0], 'the start precedes the end')
    h.__name__ = f'general{k}'
    return h


# ---- sorted list with merging ------------------------------------------------------------------------------------

def merging(k, load):
    def h(H):
        from sampo.schemas.sorted_list import ExtendedSortedList
        keys = [H.int(f'k{i}', 0, BIG, rhi=8) for i in range(k)]
        unique = H.pick('unique', [True, False]) if k > 1 else True
        if unique:
            for i in range(k):
                for j in range(i):
                    H.assume(keys[i] != keys[j])
        el = [(keys[i], f'e{i}') for i in range(k)]
        lst = ExtendedSortedList(el, key=lambda x: x[0])
        lst._reset(load)
        x = H.int('x', 0, BIG, rhi=9)
        calls = []

        def merger(old, new):
            calls.append((old, new))
            return (old[0], old[1] + '+' + new[1])
        how = H.pick('how', ['merge', 'set'])
        if how == 'merge':
            lst.merge((x, 'q'), (x, 'v'), merger)
        else:
            if not k:
                return
            i = H.pick('i', range(k))
            x = list(lst)[i][0]
            lst[i] = (x, 'v')
        out = list(lst)
        H.check(H.all(a[0] <= b[0] for a, b in zip(out, out[1:])), 'elements are in key order')
        H.check(len(lst) == len(out), 'length agrees with the contents')
        tags = [e[1] for e in out]
        if how == 'set':
            H.check(len(out) == k, 'replacing keeps the number of elements')
            H.check(tags.count('v') == 1 and sorted(t for t in tags if t != 'v') == sorted(set(t for t in tags if t != 'v')),
                    'one element is replaced, the others stay')
            gone = [i for i in range(k) if f'e{i}' not in tags]
            H.check(len(gone) == 1 and H.eq(keys[gone[0]], x), 'an element with the same key is replaced')
            if unique:
                H.check(tags[i] == 'v', 'the element at the index is replaced')
        else:
            same = [i for i in range(k) if keys[i] == x]        # decided on this path
            H.check(len(calls) == (1 if same else 0), 'merged exactly when the key is present')
            if same:
                H.check(calls[0][1][1] == 'v', 'the merger gets the new value')
                hit = [i for i in same if f'e{i}+v' in tags]
                H.check(len(hit) == 1, 'the element with this key is merged')
                want = [f'e{i}' if i not in hit else f'e{i}+v' for i in range(k)]
            else:
                want = [f'e{i}' for i in range(k)] + ['v']
            H.check(sorted(tags) == sorted(want), 'all other elements stay')
        lst.add((x, 'z'))
        out2 = list(lst)
        H.check(len(out2) == len(out) + 1 and sorted(e[1] for e in out2) == sorted(tags + ['z']), 'adding works afterwards')
        H.check(H.all(a[0] <= b[0] for a, b in zip(out2, out2[1:])), 'order is kept afterwards')
        H.check([lst[i][1] for i in range(len(lst))] == [e[1] for e in out2], 'indices agree with iteration')
    h.__name__ = f'merging{k}_{load}'
    return h


def merging_ops(seed, tier):
    """long operation sequences against a dictionary"""
    from sampo.schemas.sorted_list import ExtendedSortedList
    r = random.Random(seed)
    lst = ExtendedSortedList(key=lambda x: x[0])
    lst._reset(r.choice([4, 5, 8, 1000]))
    model = {}
    hi = r.choice([5, 20, 200])
    for _ in range(r.randint(10, 150)):
        k = r.randrange(hi)
        op = r.random()
        if op < .6:
            lst.merge((k, 0), (k, 1), lambda a, b: (a[0], a[1] + b[1]))
            model[k] = model.get(k, 0) + 1
        elif op < .8 and model:
            k = r.choice(sorted(model))
            i = lst.bisect_key_left(k)
            if r.random() < .5:
                lst[i] = (k, 50)
                model[k] = 50
            else:
                del lst[i]
                del model[k]
        elif k not in model:
            lst.add((k, 7))
            model[k] = 7
        if list(lst) != sorted(model.items()) or len(lst) != len(model) or \
                [lst[i] for i in range(len(lst))] != sorted(model.items()):
            return Case([('contents', f'list {list(lst)[:8]}..., expected {sorted(model.items())[:8]}...')])
    return Case([], len(model) > 3, str(seed))


# ---- linked list ---------------------------------------------------------------------------------------------------

def linked(k):
    def h(H):
        from sampo.utilities.linked_list import LinkedList
        vals = [H.int(f'v{i}', 0, BIG, rhi=4) for i in range(k)]
        lst = LinkedList(vals)
        c = H.int('c', 0, BIG, rhi=4)
        asked = []

        def cond(v):
            asked.append(v)
            return v <= c
        lst.remove_if(cond)
        keep = [v for v in vals if not v <= c]
        H.check(len(asked) == k and all(a is b or H.eq(a, b) for a, b in zip(asked, vals)), 'every element is examined once, in order')

        def same(want, when):
            got = list(lst)
            H.check(len(got) == len(want) and H.all(H.eq(a, b) for a, b in zip(got, want)), 'contents in order ' + when)
            H.check(len(lst) == len(want), 'length ' + when)
            H.check(lst.is_empty() == (not want), 'emptiness ' + when)
        same(keep, 'after removal')
        n = H.int('n', 0, BIG, rhi=4)
        lst.append(n)
        same(keep + [n], 'after adding')
        lst + 7
        same(keep + [n, 7], 'after adding')
        m = H.pick('m', range(len(keep) + 3))
        cnt = [0]

        def at(v):
            cnt[0] += 1
            return cnt[0] - 1 == m
        lst.remove_if(at)
        rest = keep + [n, 7]
        if m < len(rest):
            del rest[m]
        same(rest, 'after the second removal')
        lst.append(9)
        same(rest + [9], 'after adding again')
        lst.remove_if(lambda v: True)
        same([], 'after removing everything')
        lst.append(5)
        same([5], 'after filling again')
    h.__name__ = f'linked{k}'
    return h


def iterator_ops(seed, tier):
    """explicit iterators with removals at random places"""
    from sampo.utilities.linked_list import LinkedList
    r = random.Random(seed)
    model = [r.randrange(4) for _ in range(r.randint(0, 8))]
    lst = LinkedList(model)
    for _ in range(r.randint(1, 6)):
        if r.random() < .4:
            v = r.randrange(4)
            if r.random() < .5:
                lst.append(v)
            else:
                lst + v
            model.append(v)
        else:
            it = lst.iterator()
            new = []
            for v in list(model):
                if not it.has_next():
                    return Case([('iterator', 'ends too early')])
                if it.get().value != v:
                    return Case([('iterator', f'{it.get().value} instead of {v}')])
                if r.random() < .4:
                    got = it.remove()
                    if got != v:
                        return Case([('removed', f'{got} instead of {v}')])
                else:
                    new.append(v)
                    it.next()
            if it.has_next():
                return Case([('iterator', 'does not end')])
            model = new
        if list(lst) != model or len(lst) != len(model) or lst.is_empty() != (not model):
            return Case([('contents', f'{list(lst)} instead of {model} (len {len(lst)})')])
    return Case([], True, str(seed))


# ---- priority queue ------------------------------------------------------------------------------------------------

def queue(k):
    def h(H):
        from sampo.utilities.priority_queue import PriorityQueue
        desc = H.pick('descending', [False, True])
        keyed = H.pick('keyed', [False, True])
        vals = [H.int(f'v{i}', 0, BIG, rhi=5) for i in range(k)]
        kg = (lambda x: 10 - 2 * x) if keyed else (lambda x: x)
        init = H.pick('init', range(k + 1))
        q = PriorityQueue(vals[:init], desc, kg) if init else PriorityQueue.empty(desc, kg)
        for v in vals[init:]:
            q.add(v)
        cur = list(vals)
        if k and H.pick('replace', [False, True]):
            i = H.pick('which', range(k))
            n = H.int('new', 0, BIG, rhi=5)
            q.replace(vals[i], n)
            cur[i] = n
        H.check(len(q) == k, 'number of elements')
        got = [q.extract_extremum() for _ in range(k)]
        H.check(len(q) == 0, 'emptied by extraction')
        gk = [kg(g) for g in got]
        H.check(H.all((a <= b) if desc else (a >= b) for a, b in zip(gk, gk[1:])), 'extracted in order of the key')
        y = H.int('y', -5, BIG, rhi=5)
        cnt = lambda xs: sum(Ite(x == y, 1, 0) for x in xs)
        H.check(H.eq(cnt(got), cnt(cur)), 'exactly the elements that were put in come out')
    h.__name__ = f'queue{k}'
    return h


class Item:
    def __init__(self, key):
        self.key = key


def changed(k):
    def h(H):
        from sampo.utilities.priority_queue import PriorityQueue
        desc = H.pick('descending', [False, True])
        items = [Item(H.int(f'v{i}', 0, BIG, rhi=5)) for i in range(k)]
        q = PriorityQueue(list(items), desc, lambda x: x.key)
        it = items[H.pick('which', range(k))]
        it.key = H.int('new', 0, BIG, rhi=5)
        q.decrease_key(it)
        H.check(len(q) == k, 'number of elements')
        got = [q.extract_extremum() for _ in range(k)]
        H.check(H.all((a.key <= b.key) if desc else (a.key >= b.key) for a, b in zip(got, got[1:])), 'extracted in order of the new keys')
        H.check(sorted(map(id, got)) == sorted(map(id, items)), 'every element comes out once')
    h.__name__ = f'changed{k}'
    return h


def queue_ops(seed, tier):
    from sampo.utilities.priority_queue import PriorityQueue
    r = random.Random(seed)
    desc = r.random() < .5
    items = [Item(r.randrange(9)) for _ in range(r.randrange(6))]
    q = PriorityQueue(list(items), desc, lambda x: x.key) if items or r.random() < .5 else PriorityQueue.empty(desc, lambda x: x.key)
    out, top = [], 0
    for step in range(r.randint(5, 40)):
        op = r.choice(['add', 'add', 'extract', 'replace', 'change'])
        if op == 'add':
            items.append(Item(r.randrange(9)))
            q.add(items[-1])
        elif items and op == 'extract':
            got = q.extract_extremum()
            best = (min if desc else max)(i.key for i in items)
            if not any(got is i for i in items):
                out.append(('foreign', f'step {step}: extracted an element that is not in the queue'))
                break
            if got.key != best:
                out.append(('order', f'step {step}: extracted key {got.key}, the extremum is {best}'))
            items = [i for i in items if i is not got]
        elif items and op == 'replace':
            i = r.randrange(len(items))
            new = Item(r.randrange(9))
            q.replace(items[i], new)
            items[i] = new
        elif items and op == 'change':
            i = r.choice(items)
            i.key = r.randrange(9)
            q.decrease_key(i)
        if len(q) != len(items):
            out.append(('length', f'step {step} ({op}): {len(q)} elements, {len(items)} were added and not removed'))
            break
        top = max(top, len(items))
    return Case(out, top > 3, str(seed), dict(seed=seed))


PROOFS = linked_any.proofs()
for _k in (1, 2, 3):
    PROOFS.append(Proof(f'priority queue with a changed key/{_k}', changed(_k), ['sampo/utilities/priority_queue.py:PriorityQueue.decrease_key'],
                        kind='bounded', bound=f'{_k} elements', secs=40, rnd=150))
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'general timeline/{_k}', general(_k), ['sampo/scheduler/timeline/general_timeline.py:GeneralTimeline.'
                  'update_timeline'], stubs=X, kind='bounded', bound=f'{_k} bookings', secs=40, rnd=150))
for _k, _l in ((0, 4), (1, 4), (2, 4), (3, 4), (4, 2)):
    PROOFS.append(Proof(f'merging list/{_k}', merging(_k, _l), ['sampo/schemas/sorted_list.py:ExtendedSortedList.merge',
                  'sampo/schemas/sorted_list.py:ExtendedSortedList.__setitem__'], kind='bounded', stubs=X,
                  bound=f'{_k} elements, sublists of {_l}', secs=50, rnd=200))
for _k in (0, 1, 2, 3, 5):
    PROOFS.append(Proof(f'linked list/{_k}', linked(_k), ['sampo/utilities/linked_list.py:LinkedList.remove_if',
                  'sampo/utilities/linked_list.py:Iterator.remove', 'sampo/utilities/linked_list.py:LinkedList.append'],
                  kind='bounded', bound=f'{_k} elements', secs=40, rnd=150))
for _k in (0, 1, 2, 3):
    PROOFS.append(Proof(f'priority queue/{_k}', queue(_k), ['sampo/utilities/priority_queue.py:PriorityQueue'], kind='bounded',
                        bound=f'{_k} elements', secs=40, rnd=150))
SWEEPS = [Sweep('merging list operations', merging_ops, quick=200, thorough=6000, rule='random operation sequences against a '
                'dictionary; non-trivial: more than 3 elements at the end'),
          Sweep('linked list operations', iterator_ops, quick=400, thorough=10000, rule='random appends and removals through '
                'explicit iterators against a list'),
          Sweep('priority queue operations', queue_ops, quick=400, thorough=10000, rule='random additions, extractions, replacements and '
                'changes of keys against a list; non-trivial: more than 3 elements at once')]
CHECK = Check('C22', 'bounded', proofs=PROOFS, sweeps=SWEEPS)

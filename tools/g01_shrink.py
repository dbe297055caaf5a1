"""g01_shrink.py IN.pb OUTDIR : every descriptor set that is one step smaller than IN.pb and still valid, as OUTDIR/0.pb, 1.pb ..."""
import sys, copy, os
from google.protobuf import descriptor_pb2, descriptor_pool
src = descriptor_pb2.FileDescriptorSet.FromString(open(sys.argv[1], 'rb').read())
out = sys.argv[2]
n = 0


def emit(fds):
    global n
    try:
        pool = descriptor_pool.DescriptorPool()
        for f in fds.file:
            pool.AddSerializedFile(f.SerializeToString())
        for f in fds.file:
            pool.FindFileByName(f.name)
    except Exception:
        return
    open(f'{out}/{n}.pb', 'wb').write(fds.SerializeToString())
    n += 1


def fix_oneofs(m):
    used = sorted({f.oneof_index for f in m.field if f.HasField('oneof_index')})
    keep = [m.oneof_decl[i] for i in used]
    keep = [copy.deepcopy(o) for o in keep]
    del m.oneof_decl[:]
    m.oneof_decl.extend(keep)
    for f in m.field:
        if f.HasField('oneof_index'):
            f.oneof_index = used.index(f.oneof_index)


def messages(fds):
    st = [m for f in fds.file for m in f.message_type]
    while st:
        m = st.pop()
        yield m
        st.extend(m.nested_type)


def variants(n_of, cut):
    """cut(fds, i) for each i"""
    for i in range(n_of(src)):
        c = copy.deepcopy(src)
        if cut(c, i) is not False:
            emit(c)


def drop_file(c, i):
    name = c.file[i].name
    del c.file[i]
    for f in c.file:
        keep = [d for d in f.dependency if d != name]
        del f.dependency[:]
        f.dependency.extend(keep)


def containers(fds):
    return [x for f in fds.file for x in (f.message_type, f.enum_type, f.extension)] + [x for m in messages(fds) for x in (m.nested_type, m.enum_type, m.extension)]


def drop_decl(c, i):
    for x in containers(c):
        if i < len(x):
            del x[i]
            return
        i -= len(x)


def drop_half_fields(c, i):
    m = list(messages(c))[i // 2]
    k = len(m.field) // 2
    if k == 0 or m.options.map_entry:
        return False
    del m.field[slice(0, k) if i % 2 else slice(k, None)]
    fix_oneofs(m)


def drop_field(c, i):
    for m in messages(c):
        if i < len(m.field):
            if m.options.map_entry:
                return False
            t = m.field[i].type_name.rsplit('.', 1)[-1]
            del m.field[i]
            for k, e in enumerate(m.nested_type):
                if e.options.map_entry and e.name == t:
                    del m.nested_type[k]
                    break
            fix_oneofs(m)
            return
        i -= len(m.field)


def simplify_field(c, i):
    """label, options and default value of one field"""
    for m in messages(c):
        if i < 3 * len(m.field):
            f = m.field[i // 3]
            k = i % 3
            if k == 0 and f.HasField('options') and not m.options.map_entry:
                f.ClearField('options')
            elif k == 1 and f.HasField('default_value'):
                f.ClearField('default_value')
            elif k == 2 and f.number > 15:
                used = {g.number for g in m.field}
                f.number = next(x for x in range(1, 1000) if x not in used)
            else:
                return False
            return
        i -= 3 * len(m.field)


nf = lambda s: sum(len(m.field) for m in messages(s))
variants(lambda s: len(s.file), drop_file)
variants(lambda s: sum(map(len, containers(s))), drop_decl)
variants(lambda s: 2 * len(list(messages(s))), drop_half_fields)
variants(nf, drop_field)
variants(lambda s: 3 * nf(s), simplify_field)
print(n)

F = 'subtype.py'
V = ['C29']
MUTS = [
    ('any', F, "                all(where(instance)", "                any(where(instance)", V, 'bad'),
    ('or', F, """isinstance(instance, cls.of) and (
                all""", """isinstance(instance, cls.of) or (
                all""", V, 'bad'),
    ('no-of', F, """            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
""", """            ok = all(where(instance) for where in cls.where_funcs)
""", V, 'bad'),
    ('no-where', F, """            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
""", """            ok = isinstance(instance, cls.of)
""", V, 'bad'),
    ('first-where', F, """            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
""", """            ok = isinstance(instance, cls.of)
            for where in cls.where_funcs:
                ok = ok and where(instance)
                break
""", V, 'any'),
    ('last-where', F, """            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
""", """            ok = isinstance(instance, cls.of)
            for where in cls.where_funcs:
                ok = where(instance)
""", V, 'bad'),
    ('loop', F, """            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
""", """            ok = isinstance(instance, cls.of)
            if ok:
                for where in cls.where_funcs:
                    if not where(instance):
                        ok = False
                        break
""", V, 'ok'),
    ('fail-ok', F, """        except:
            ok = False
        return ok""", """        except:
            ok = True
        return ok""", V, 'bad'),
    ('typeerror', F, "        except:\n            ok = False", "        except TypeError:\n            ok = False", V, 'bad'),
    ('exception', F, "        except:\n            ok = False", "        except Exception:\n            ok = False", V, 'ok'),
    ('no-except', F, """        try:
            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
        except:
            ok = False
        return ok""", """        return isinstance(instance, cls.of) and (
            all(where(instance) for where in cls.where_funcs)
        )""", V, 'bad'),
    ('pre-true', F, "        try:\n            ok = isinstance(instance, cls.of) and (",
     "        ok = True\n        try:\n            ok = isinstance(instance, cls.of) and (", V, 'ok'),
    ('pre-true-pass', F, """        try:
            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
        except:
            ok = False
        return ok""", """        ok = isinstance(instance, cls.of)
        try:
            ok = ok and (
                all(where(instance) for where in cls.where_funcs)
            )
        except Exception:
            pass
        return ok""", V, 'bad'),
    ('return-early', F, """        try:
            ok = isinstance(instance, cls.of) and (
                all(where(instance) for where in cls.where_funcs)
            )
        except:
            ok = False
        return ok""", """        if not isinstance(instance, cls.of):
            return False
        try:
            return all(where(instance) for where in cls.where_funcs)
        except Exception:
            return False""", V, 'ok'),
    ('of-check', F, """        if not isinstance(of, type):
            raise exc.SubtypeOfWhat(of=of)

""", "", V, 'bad'),
    ('of-none', F, "        if not isinstance(of, type):", "        if of is None:", V, 'bad'),
    ('mixed-args', F, "return typcls(name, of, where, coerce)", "return typcls(name, of, coerce, where)", V, 'bad'),
    ('no-coerce-arg', F, "return typcls(name, of, where, coerce)", "return typcls(name, of, where)", V, 'any'),
    ('bases', F, "__new__(typcls, name, (of,), cls_dict)", "__new__(typcls, name, (object,), cls_dict)", V, 'bad'),
    ('cls-of', F, "            of=of,\n            where_funcs", "            of=object,\n            where_funcs", V, 'bad'),
    ('cls-where', F, "            where_funcs=(where,),\n", "            where_funcs=(),\n", V, 'bad'),
    ('cls-coerce', F, "            coerce=(coerce,),\n", "            coerce=(where,),\n", V, 'bad'),
    ('unwrapped', F, [("            coerce=(coerce,),\n", "            coerce=staticmethod(coerce),\n"), ("cls.coerce[0]:", "cls.coerce:"), ("coerced = cls.coerce[0](value)", "coerced = cls.coerce(value)")], None, V, 'any'),
    ('unchecked', F, """                if not isinstance(coerced, cls_a[0]):
                    raise exc.SubtypeCoerceError(
                        subtype=cls_a[0],
                        subtype_of=of,
                        passed=value,
                        coerced=coerced,
                    )
""", "", V, 'bad'),
    ('checked-of', F, "                if not isinstance(coerced, cls_a[0]):", "                if not isinstance(coerced, of):", V, 'bad'),
    ('accepts-of', F, "            if isinstance(value, cls_a[0]):", "            if isinstance(value, of):", V, 'bad'),
    ('checked-value', F, "                if not isinstance(coerced, cls_a[0]):", "                if not isinstance(value, cls_a[0]):", V, 'bad'),
    ('cls', F, [("            if isinstance(value, cls_a[0]):", "            if isinstance(value, cls):"), ("                if not isinstance(coerced, cls_a[0]):", "                if not isinstance(coerced, cls):")], None, V, 'ok'),
    ('no-func', F, """            else:
                raise exc.SubtypeNoCoerceFunc(
                    passed=value,
                    subtype=cls_a[0],
                    subtype_of=of,
                )
""", """            else:
                return value
""", V, 'bad'),
    ('no-func-none', F, """            else:
                raise exc.SubtypeNoCoerceFunc(
                    passed=value,
                    subtype=cls_a[0],
                    subtype_of=of,
                )
""", "", V, 'bad'),
    ('coerce-first', F, """            if isinstance(value, cls_a[0]):
                return value
            elif cls""", """            if cls.coerce[0] is None and isinstance(value, cls_a[0]):
                return value
            elif cls""", V, 'bad'),
    ('coerced-passed', F, "                        coerced=coerced,\n", "                        coerced=value,\n", V, 'bad'),
    ('outer-coerce', F, [("cls.coerce[0]:", "coerce:"), ("cls.coerce[0](value)", "coerce(value)")], None, V, 'ok'),
    ('flat', F, """            if isinstance(value, cls_a[0]):
                return value
            elif cls.coerce[0]:
                coerced = cls.coerce[0](value)
                if not isinstance(coerced, cls_a[0]):
                    raise exc.SubtypeCoerceError(
                        subtype=cls_a[0],
                        subtype_of=of,
                        passed=value,
                        coerced=coerced,
                    )
                return coerced
            else:
                raise exc.SubtypeNoCoerceFunc(
                    passed=value,
                    subtype=cls_a[0],
                    subtype_of=of,
                )
""", """            subtype_ = cls_a[0]
            if isinstance(value, subtype_):
                return value
            func = cls.coerce[0]
            if not func:
                raise exc.SubtypeNoCoerceFunc(
                    passed=value,
                    subtype=subtype_,
                    subtype_of=of,
                )
            coerced = func(value)
            if isinstance(coerced, subtype_):
                return coerced
            raise exc.SubtypeCoerceError(
                subtype=subtype_,
                subtype_of=of,
                passed=value,
                coerced=coerced,
            )
""", V, 'ok'),
    ('meta s-meta', 'subtype.py',
     '            return typcls(name, of, where, coerce)',
     '            return typcls(name, of, where)',
     ['C29'], 'bad'),
    ('meta s-meta-kw-ok', 'subtype.py',
     '            return typcls(name, of, where, coerce)',
     '            return typcls(name, of, where, coerce=coerce)',
     ['C29'], 'ok'),
    ('meta s-meta-kw2-ok', 'subtype.py',
     '            return typcls(name, of, where, coerce)',
     '            return typcls(name, of, coerce=coerce, where=where)',
     ['C29'], 'ok'),
    ('meta s-meta-kwbad', 'subtype.py',
     '            return typcls(name, of, where, coerce)',
     '            return typcls(name, of, coerce=None, where=where)',
     ['C29'], 'bad'),
]

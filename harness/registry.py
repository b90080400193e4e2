"""Which module decides which property."""
SEQ = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C20')


def run(prop, replay):
    if prop in SEQ:
        import seq
        return seq.run(prop, replay)
    if prop in ('C09', 'C13', 'C14', 'C17'):
        import txn
        return getattr(txn, prop.lower())(replay)
    if prop in ('C10', 'C11'):
        import faults
        return getattr(faults, prop.lower())(replay)
    if prop == 'C12':
        import conc
        return conc.c12(replay)
    if prop in ('C15', 'C16'):
        import text
        return text.run(prop, replay)
    if prop in ('C18', 'C19'):
        import query
        return query.run(prop, replay)
    if prop in ('C21', 'C22', 'C23', 'C24', 'C25', 'C26'):
        import stages
        return stages.run(prop, replay)
    if prop == 'C27':
        import treeops
        return treeops.run(prop, replay)
    if prop == 'C28':
        import lexicon
        return lexicon.c28(replay)
    if prop == 'C29':
        import dump
        return dump.c29(replay)
    if prop in ('C30', 'C32'):
        import parse
        return getattr(parse, prop.lower())(replay)
    if prop == 'C31':
        import cli
        return cli.c31(replay)
    raise ValueError(prop)

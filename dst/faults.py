"""Places of faults: relative ones of plans are turned into absolute ones by
a rehearsal of the same step in a copy of the process."""


def needs_place(found):
    return found['type'] not in ('recursion', 'request-now')


def measuring(impl, found):
    """What the rehearsal has to count and record."""
    return {'measure': ('opcodes' if found['opcodes'] else 'lines')
            if impl == 'port' else None,
            'record': bool(found.get('rare'))}


def positioned(found, info):
    """Either number of any event, or, so that places which are rarely passed
    are not neglected, one of passages of any place or of ones inside of any
    call (calls which are rarely made are chosen more often)."""
    if not needs_place(found):
        return found
    of_allocations = found['type'] == 'alloc'
    total = info.get('allocations' if of_allocations else 'events', 0)
    if not total:
        return None
    if found['type'] == 'gc':
        return dict(found, at=[1 + total * ppm // 1000000
                               for ppm in found['ppms']])
    if found.get('rare') == 'call' and info.get('call_places'):
        calls = ([call for call in info['call_places']
                  if call[2] == found.get('pair')] or info['call_places'])
        rest = found['ppm'] / 1000000 * sum(call[1] for call in calls)
        for number, weight, _ in calls:
            rest -= weight
            if rest < 0:
                break
        return dict(found, at=number)
    places = (info.get('allocation_places' if of_allocations else 'places')
              if found.get('rare') else None)
    if places:
        return dict(found, at=places[len(places) * found['ppm'] // 1000000])
    return dict(found, at=1 + total * found['ppm'] // 1000000)

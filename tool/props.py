"""Static facts about the properties."""
LABEL = {'C24': 'single'}
ASSUME = {}
LEVEL = {}
NOTES = {}
LEMMAS = {'C19': ('cmp_', 'flag_')}
_TODO = 'the contracts of the functions it depends on are not written yet; nothing is claimed'
NOT_APPLICABLE = {p: _TODO for p in ''.split()}


def lemma_owner(goal):
    return [p for p, pre in LEMMAS.items() if goal.startswith(pre)]

"""Stand-in for the (not installed) simple_poller dependency of AESolver.

Answers are taken from the module-level list ``ANSWERS`` (default answer when exhausted).
"""
ANSWERS = []
ASKED = []


class Poller:
    def __init__(self, *args, **kwargs):
        self._args = args
        ASKED.append((args, kwargs))

    def boolean_poll(self, default_answer=False, *args, **kwargs):
        return ANSWERS.pop(0) if ANSWERS else default_answer

    def __getattr__(self, name):
        def f(*args, **kwargs):
            return ANSWERS.pop(0) if ANSWERS else kwargs.get('default_answer')
        return f

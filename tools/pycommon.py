import os
REPO = os.environ.get('VERIF_REPO', '/repo')
class Fail(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind, self.msg = kind, msg
class CannotRun(Exception):
    pass
def run_env():
    return dict(os.environ, LANG='C.UTF-8')

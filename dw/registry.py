"""which rules decide which property, and on which functions"""
from . import netrules as N
from . import threadrules as T
from . import liferules as F
from . import lockrules as L
from . import serverrules as V
from . import fdrules as FD
from . import setrules as S


def of(f, want):
    g = lambda cx, root: f(cx, root, want)
    g.__name__ = f.__name__
    return g


# property -> (rules over the public functions, {class that starts the thread: rules over the thread})
NET = {
    'P09': ([], {'Connection': [of(T.recv_rule, 'P09'), of(N.loop_rule, 'P09')]}),
    'P10': ([], {'Connection': [of(T.recv_rule, 'P10'), of(N.loop_rule, 'P10')]}),
    'P11': ([], {'Connection': [T.send_rule, of(N.loop_rule, 'P11')]}),
    'P12': ([F.pull_rule, T.handler_rule], {'Connection': [T.dispose_rule]}),
    'P13': ([T.setter_rule, T.arm_rule], {'Connection': [T.timer_rule, of(N.loop_rule, 'P13')], 'Client': [T.arm_rule]}),
    'P14': ([N.push_rule], {}),
    'P15': ([N.ids_rule], {'Client': [N.ids_client]}),
    'P16': ([N.disconnect_rule], {'Connection': [of(N.loop_rule, 'P16')]}),
    'P17': ([], {'Connection': [T.exit_rule]}),
    'P18': ([F.refs_rule], {'Connection': [F.refs_wait]}),
    'P19': ([FD.race_rule, FD.fd_rule], {'Connection': [FD.fd_rule], 'Client': [FD.fd_rule], 'Server': [FD.fd_rule]}),
    'P20': ([L.lock_rule], {'Connection': [L.lock_rule], 'Client': [L.lock_rule], 'Server': [L.lock_rule]}),
    'P21': ([L.lockset_rule], {}),
    'P22': ([V.get_rule], {'Server': [V.server_thread]}),
    'P23': ([F.start_rule, F.connect_rule], {'Client': [F.connect_thread]}),
    'P24': ([F.wait_rule], {'Client': [F.wait_client]}),
    'P28': ([], {'Connection': [of(N.loop_rule, 'P28'), of(T.recv_rule, 'P28')]}),
    'P30': ([S.access_rule, S.start_addresses], {'Client': [S.connect_addresses], 'Server': [S.unlink_rule, S.found_rule]}),
}

CODEC = {'P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P29'}


def claimed():
    return sorted(set(NET) | CODEC)

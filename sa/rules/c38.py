"""What a torrent starts with."""
from .lib import *
from ..equiv import equiv

RULE = 'every constructor and default is compared, field by field, with its reference definition'
T = 'torrent_rs::'
D = ' as std::default::Default>::default'


def defaults(c):
    equiv(c, '<%sflags::TorrentFlags%s' % (T, D), 'torrent_rs::start::flags')
    equiv(c, '<%sfs::FileStorage%s' % (T, D), 'torrent_rs::start::storage')
    equiv(c, T + 'fs::FileStorage::new', 'torrent_rs::start::storage')
    equiv(c, T + 'fs::FileStorage::is_valid', 'torrent_rs::start::valid')
    equiv(c, '<%sinfo::TorrentInfo%s' % (T, D), 'torrent_rs::start::info')
    equiv(c, T + 'info::TorrentInfo::new', 'torrent_rs::start::info')
    equiv(c, '<%sparams::TorrentParams%s' % (T, D), 'torrent_rs::start::params')


RULES = [defaults]

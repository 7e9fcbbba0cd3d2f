# pathlib model, interpreted abstractly (never imported)
class Path:
    def __init__(self, *parts):
        s = None
        for p in parts:
            p = _fs_str(p)
            if s is None or p.startswith("/"):
                s = p
            elif s.endswith("/"):
                s = s + p
            else:
                s = s + "/" + p
        self._s = "." if s is None or s == "" else s

    def __str__(self):
        return self._s

    def __fspath__(self):
        return self._s

    def __repr__(self):
        return "PosixPath(" + repr(self._s) + ")"

    def __eq__(self, other):
        if not isinstance(other, Path):
            return NotImplemented
        return self._s == other._s

    def __hash__(self):
        return hash(self._s)

    def __lt__(self, other):
        return self._s < other._s

    def __truediv__(self, other):
        return Path(self, other)

    def __rtruediv__(self, other):
        return Path(other, self)

    def joinpath(self, *other):
        return Path(self, *other)

    @property
    def name(self):
        if "/" not in self._s:
            return self._s
        return self._s.rsplit("/", 1)[1]

    @property
    def parent(self):
        if "/" not in self._s:
            return Path(".")
        return Path(self._s.rsplit("/", 1)[0] or "/")

    @property
    def suffix(self):
        n = self.name
        if "." not in n.lstrip(".") or n.endswith("."):
            return ""
        return "." + n.rsplit(".", 1)[1]

    @property
    def stem(self):
        n = self.name
        if "." not in n.lstrip(".") or n.endswith("."):
            return n
        return n.rsplit(".", 1)[0]

    def with_name(self, name):
        return self.parent / name

    def with_suffix(self, suffix):
        return self.parent / (self.stem + suffix)

    def exists(self):
        return _fs_exists(self._s)

    def _lexists(self):
        return _fs_exists(self._s, False)

    def is_symlink(self):
        return _fs_kind(self._s) == "dangling"

    def is_file(self):
        return _fs_exists(self._s) and _fs_kind(self._s) != "dir"

    def is_dir(self):
        return _fs_kind(self._s) == "dir"

    def unlink(self, missing_ok=False):
        return _fs_unlink(self._s, missing_ok)

    def read_text(self, encoding=None, errors=None):
        return _fs_read(self._s, True, encoding, errors)

    def read_bytes(self):
        return _fs_read(self._s, False, None, None)

    def write_text(self, data, encoding=None, errors=None, newline=None):
        return _fs_write(self._s, data, True, encoding, errors)

    def write_bytes(self, data):
        return _fs_write(self._s, data, False, None, None)

    def touch(self, mode=438, exist_ok=True):
        return _fs_touch(self._s, exist_ok)

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return _fs_open(self._s, mode, encoding, errors)

    def samefile(self, other):
        return _fs_samefile(self._s, _fs_str(other))

    def rename(self, other):
        return _fs_rename(self._s, _fs_str(other))

    def replace(self, other):
        return _fs_rename(self._s, _fs_str(other))

    def resolve(self, strict=False):
        return Path(_fs_resolve(self._s))

    def absolute(self):
        if not self._s.startswith("/"):
            return _fs_other(self)
        return self

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        return _fs_mkdir(self._s, parents, exist_ok)

    def rmdir(self):
        return _fs_other(self)

    def glob(self, p):
        return _fs_other(self)

    def iterdir(self):
        return _fs_other(self)

    def chmod(self, *a):
        return _fs_other(self)

    def stat(self, **k):
        return _Stat(_fs_size(self._s))

    def lstat(self):
        return _Stat(_fs_size(self._s))


class _Stat:
    def __init__(self, size):
        self.st_size = size


class PurePath(Path):
    pass

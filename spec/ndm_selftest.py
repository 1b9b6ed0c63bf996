"""Deliberately wrong readers and writers, analysed (never run) on every check: each must be reported.

They show that a rule that finds nothing on the analysed tree is able to find something."""
import os
import time
from pathlib import Path

from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

KEPT = []


class Mutate(NdmKvnIo):
    def to_string(self, ndm_obj):
        ndm_obj.header = None
        return "CCSDS_OPM_VERS = 2.0"


class MutateList(NdmKvnIo):
    def to_string(self, ndm_obj):
        text = super().to_string(ndm_obj)
        ndm_obj.header.comment.append("written")
        return text


class Retain(NdmKvnIo):
    def from_string(self, kvn_source):
        KEPT.append(kvn_source)
        return super().from_string(kvn_source)

    def to_string(self, ndm_obj):
        Retain.last = ndm_obj
        return super().to_string(ndm_obj)


class Memo(NdmKvnIo):
    memo = {}

    def from_string(self, kvn_source):
        if kvn_source not in self.memo:
            self.memo[kvn_source] = super().from_string(kvn_source)
        return self.memo[kvn_source]

    def to_string(self, ndm_obj):
        if id(ndm_obj) not in self.memo:
            self.memo[id(ndm_obj)] = super().to_string(ndm_obj)
        return self.memo[id(ndm_obj)]


class Effect(NdmKvnIo):
    def from_string(self, kvn_source):
        Path("cache.dat").write_text(kvn_source, encoding="utf-8")
        return super().from_string(kvn_source)

    def to_string(self, ndm_obj):
        os.remove("cache.dat")
        return super().to_string(ndm_obj)


class Clock(NdmKvnIo):
    def to_string(self, ndm_obj):
        return super().to_string(ndm_obj) + "\nCOMMENT " + str(time.time())


class SetOrder(NdmKvnIo):
    def to_string(self, ndm_obj):
        return "\n".join(set(super().to_string(ndm_obj).split("\n")))


class Swallow(NdmKvnIo):
    def from_path(self, kvn_read_file_path):
        try:
            return super().from_path(kvn_read_file_path)
        except Exception:
            return None

    def to_file(self, ndm_obj, kvn_write_file_path):
        try:
            super().to_file(ndm_obj, kvn_write_file_path)
        except OSError:
            pass


class Leak(NdmKvnIo):
    def from_path(self, kvn_read_file_path):
        f = open(kvn_read_file_path, "r", encoding="utf-8")
        result = self.from_string(f.read())
        f.close()
        return result


class Locale(NdmKvnIo):
    def from_path(self, kvn_read_file_path):
        with open(kvn_read_file_path) as f:
            return self.from_string(f.read())

    def to_file(self, ndm_obj, kvn_write_file_path):
        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))


class Early(NdmKvnIo):
    def to_file(self, ndm_obj, kvn_write_file_path):
        with open(kvn_write_file_path, "w", encoding="utf-8") as f:
            f.write(self.to_string(ndm_obj).replace("VERS", "VERSION"))


class Lenient(NdmKvnIo):
    def from_path(self, kvn_read_file_path):
        return super().from_string("")


class Sticky(NdmXmlIo):
    kept = {}

    def to_string(self, ndm_obj, **kwargs):
        Sticky.kept = {**Sticky.kept, **kwargs}
        return super().to_string(ndm_obj, **Sticky.kept)

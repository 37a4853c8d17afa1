"""A local (loopback, in-memory) Google Cloud Storage emulator, with raw access that bypasses the library."""
import itertools
import os
import urllib.parse
import warnings

warnings.simplefilter("ignore")


def realistic_metadata(writes=itertools.count(1)):
    """As the real service (unlike the emulator): the etag identifies the write (not the contents), and composite
    objects (here: any whose name says so) have no md5."""
    from gcp_storage_emulator.handlers import objects

    checksums = objects._checksums

    def wrapped(content, file_obj):
        file_obj = checksums(content, file_obj)
        file_obj["etag"] = f"C{next(writes)}="
        return file_obj

    if not hasattr(checksums, "wrapped"):
        wrapped.wrapped = True
        objects._checksums = wrapped
        from gcsfs import GCSFileSystem

        process = GCSFileSystem._process_object

        def without_md5(self, bucket, object_metadata):
            out = process(self, bucket, object_metadata)
            if "composite" in out["name"]:
                out.pop("md5Hash", None)
            return out

        GCSFileSystem._process_object = without_md5


class Emulator:
    def __init__(self):
        import logging

        import gcp_storage_emulator.server as srv

        logging.disable(logging.CRITICAL)
        realistic_metadata()
        self.server = srv.create_server("localhost", 0, in_memory=True)
        self.server.start()
        host, port = self.server._api._httpd.socket.getsockname()
        self.url = f"http://{host}:{port}"
        os.environ["STORAGE_EMULATOR_HOST"] = self.url
        import requests
        from gcsfs import GCSFileSystem

        self.http = requests.Session()
        self.fs = GCSFileSystem
        self.fs().mkdir("bkt")
        self.fs().mkdir("other")

    def put(self, path, data: bytes, bucket="bkt"):
        r = self.http.post(f"{self.url}/upload/storage/v1/b/{bucket}/o?uploadType=media&name={urllib.parse.quote(path, safe='')}", data=data)
        assert r.status_code == 200, (r.status_code, r.text)

    def get(self, path, bucket="bkt"):
        r = self.http.get(f"{self.url}/download/storage/v1/b/{bucket}/o/{urllib.parse.quote(path, safe='')}?alt=media")
        return r.content if r.status_code == 200 else None

    def delete(self, path, bucket="bkt"):
        self.http.delete(f"{self.url}/storage/v1/b/{bucket}/o/{urllib.parse.quote(path, safe='')}")

    def stop(self):
        self.server.stop()

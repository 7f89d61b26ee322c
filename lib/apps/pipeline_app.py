"""Application under test for the process-level checks: a buffered endpoint that forwards to a peer
through a buffered sender, and a journal (unbuffered append) of what its processing function did."""
import asyncio
import os
import sys
import time

sys.path.insert(0, os.environ["VERIF_REPO_PATH"])

from pydantic import BaseModel  # noqa
from ekosis.application_base import ApplicationBase  # noqa
from ekosis.requests.buffered_endpoint import buffered_endpoint  # noqa
from ekosis.requests.endpoint import endpoint  # noqa
from ekosis.sending.buffered_sender import buffered_sender  # noqa
from ekosis.clients import TransientUDSClient, PersistedUDSClient  # noqa

JOURNAL = os.open(os.environ["PIPE_JOURNAL"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
PAGE = int(os.environ["PIPE_PAGE"])
PERSISTENT = os.environ.get("PIPE_PERSISTENT") == "1"
client = (PersistedUDSClient if PERSISTENT else TransientUDSClient)(os.environ["PIPE_PEER"], timeout=3)


def journal(text):
    os.write(JOURNAL, (text + "\n").encode())


class Req(BaseModel):
    n: int
    fwd: bool = False
    dur: float = 0
    spin: float = 0


class Fwd(BaseModel):
    n: int


@buffered_sender(client, "peer.q", Fwd, page_size=PAGE, max_retries=1000)
async def forward(n):
    return Fwd(n=n)


def spin(seconds):
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        pass


@buffered_endpoint("pipe.q", Req, page_size=PAGE, max_retries=3)
async def process(dto):
    journal(f"start {dto.n}")
    spin(dto.spin)
    if dto.dur:
        await asyncio.sleep(dto.dur)
        spin(dto.spin)
    if dto.fwd:
        await forward(dto.n)
    journal(f"done {dto.n}")
    return True


@endpoint("pipe.direct", Req)
async def direct(dto):
    spin(dto.spin)
    await asyncio.sleep(dto.dur)
    return dto


class App(ApplicationBase):
    pass


def main():
    with App() as app:
        app.start()


if __name__ == "__main__":
    main()

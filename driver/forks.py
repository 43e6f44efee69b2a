"""Runs functions in forked copies of the process, so that each starts from the state
right after the import."""
import json
import os
import select
import signal
import sys
import time


def forked(function, seconds=30):
    """(result, '') or (None, how it failed)"""
    receiver, sender = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            os.close(receiver)
            data = json.dumps(function()).encode()
            view = memoryview(data)
            while view:
                view = view[os.write(sender, view):]
            code = 0
        except BaseException as error:
            sys.stderr.write(f'{type(error).__name__}: {error}\n'[:400])
        finally:
            os._exit(code)
    os.close(sender)
    ended = os.pidfd_open(pid)
    chunks, deadline, hang = [], time.monotonic() + seconds, False
    while True:
        left = deadline - time.monotonic()
        ready = left > 0 and select.select([receiver, ended], [], [], left)[0]
        if not ready:
            hang = True
            break
        if receiver in ready:
            chunk = os.read(receiver, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
        else:
            # processes it has started may keep the other end
            break
    os.close(receiver)
    os.close(ended)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    # whatever it has started
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if hang:
        return None, 'hang'
    if status:
        return None, f'died {status}'
    return json.loads(b''.join(chunks)), ''

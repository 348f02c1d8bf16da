"""epsilon.scripts.benchmark, which refuses to be imported on a host called localhost."""
import socket

_name = socket.gethostname
if _name() == "localhost":
    socket.gethostname = lambda: "verification"
try:
    from epsilon.scripts import benchmark
finally:
    socket.gethostname = _name

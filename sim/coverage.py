"""What the evidence files say about every check."""

REAL_ALL = ["elgas.client", "elgas.connection", "elgas.state", "elgas.frames", "elgas.application",
            "elgas.security", "elgas.transport", "elgas.parser", "elgas.parameters", "elgas.utils",
            "elgas.exceptions", "cryptography (AES)"]
STUB_ALL = ["TCP sockets (socket.create_connection, socket.socket): sim/net.py",
            "serial ports (serial.Serial): sim/net.py",
            "clocks and sleep (time.*): sim/kernel.py",
            "the meter: sim/device.py with its own codec sim/proto.py"]
REAL = {
    "C11": ["elgas.connection", "elgas.state", "elgas.frames", "elgas.application", "elgas.security",
            "elgas.utils", "elgas.exceptions"],
    "C15": ["elgas.transport", "elgas.exceptions"],
    "C16": ["elgas.transport", "elgas.frames", "elgas.application", "elgas.utils"],
    "C21": REAL_ALL + ["elgas.frames, elgas.security and elgas.utils on the meter's side too"],
}
STUB = {
    "C11": ["the byte stream and its pieces (sim/props2.py)", "the meter: sim/device.py"],
}
ASSUMPTIONS = [
    "the simulated socket and serial port behave like the real ones at the calls elgas makes",
    "the codec in sim/proto.py reads the wire format the way real devices do",
]
ASSUME = {
    "C02": ["a frame whose length and three redundancy bytes are right is what the device sent"],
    "C13": ["a ciphertext that opens with the client's key and has a right 16-bit CRC is genuine"],
}

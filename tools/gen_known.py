"""Writes known_findings.json."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    {
        "id": "cryout-flag",
        "property": "C05",
        "what": "a write-time request with cryout=True carries the flag byte 0x04 instead of 0x05",
        "where": "elgas/application.py:WriteTimeRequest.to_bytes (the cry-out lines are commented out, apparently on purpose)",
        "input": "WriteTimeRequest(password, device_time, cryout=True).to_bytes() ends in 0x04",
    },
    {
        "id": "type-61",
        "property": "C17",
        "what": "decoding any type 61 object (DeviceError) raises TypeError: the class requires the three error_bit_order fields, which from_bytes neither reads nor passes (whether the device sends them is not documented)",
        "where": "elgas/parameters/device_error.py:DeviceError.from_bytes",
        "input": "parser.ScadaParameterParser().parse(any complete object of type 61)",
    },
    {
        "id": "type-62",
        "property": "C17",
        "what": "decoding any type 62 object (SumOfAlarms) raises TypeError: the class requires the three error_bit_order fields, which from_bytes neither reads nor passes (whether the device sends them is not documented)",
        "where": "elgas/parameters/sum_of_alarms.py:SumOfAlarms.from_bytes",
        "input": "parser.ScadaParameterParser().parse(any complete object of type 62)",
    },
    {
        "id": "type-73",
        "property": "C17",
        "what": "decoding any type 73 object (DifferenceBaseCounter) raises AttributeError: the class has no fields and no from_bytes",
        "where": "elgas/parameters/difference_counter.py:DifferenceBaseCounter",
        "input": "parser.ScadaParameterParser().parse(any complete object of type 73)",
    },
    {
        "id": "type-73-schema",
        "property": "C19",
        "what": "the schema of type 73 (DifferenceBaseCounter) cannot load what it dumps: the class takes no fields (TypeError)",
        "where": "elgas/parameters/difference_counter.py:DifferenceBaseCounter, DifferenceBaseCounterSchema",
        "input": "any dump of a DifferenceBaseCounter",
    },
]
PROPS = {
    "89cf07f": ("C02", "addresses above 255 were encoded big endian and decoded little endian"),
    "16dc1d1": ("C03", "frames shorter than a header (e.g. 02FE860D with fitting check bytes) were accepted"),
    "9b48457": ("C14", "a status byte with two or more error bits raised nothing"),
    "c845cea": ("C14", "after a device error the connection stayed in the awaiting state with a used buffer"),
    "428ea0c": ("C12", "bytes of a frame that cannot be interpreted stayed in the buffer and blocked later responses; one poll skipped data behind a bad frame"),
    "7049a91": ("C13", "a request that could not be encoded left the connection awaiting a response"),
    "a5db76e": ("C12", "an encrypted response without cipher context or with a short header raised AttributeError/IndexError or was accepted under another key id (also C10)"),
    "29c2645": ("C13", "a response to a service without response class raised KeyError"),
    "e51f501": ("C07", "the oldest record id of archive responses lost its high bytes"),
    "a742449": ("C06", "years outside 2000-2099 were encoded to wrong or malformed bytes (also C05)"),
    "ae612a7": ("C18", "an incomplete last object and object lengths below the header size were accepted"),
    "72b847e": ("C17", "type 49 (CorrectionCounter) was in neither factory (also C19)"),
    "25da9cb": ("C19", "ErrorStandardCounter, Modem and SetPoint schemas loaded dicts instead of objects"),
    "4a3b6d1": ("C19", "flow rates without decimals could not be loaded"),
    "90d50d4": ("C19", "text_log fields of DeviceError were declared as integers"),
    "9ed7e4c": ("C10", "a stated length beyond the data was answered with shorter data"),
    "1612244": ("C28", "left-over bytes and outstanding requests survived a reconnect"),
    "b1708bb": ("C24", "receiving from a closed TCP peer never returned"),
    "5218b9c": ("C24", "receiving from a silent serial line never returned"),
    "00d6270": ("C13", "a response object could be sent while that response was outstanding (AttributeError instead of the local protocol error)"),
    "be034aa": ("C30", "archive responses of one to four bytes were decoded with an oldest record id made of fewer bytes"),
    "df5c6d7": ("C25", "a serial line that failed while its settings were applied (termios.error) raised something else than the communication error"),
    "74b7c50": ("C25", "a TCP socket whose shutdown failed was never closed"),
}
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h"], capture_output=True, text=True
).stdout.split()[1:]
fixed = []
for h in log:
    prop, what = PROPS[h]
    fixed.append(f"fixed: property={prop} {h} {what}")
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")

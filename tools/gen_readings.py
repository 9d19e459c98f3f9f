#!/usr/bin/env python3
"""Collect the readings recorded next to the telegrams in /repo/libmbus_test_data
(the output of rSCADA libmbus for them) into harness/corpus/readings.txt."""
import glob
import os
import xml.etree.ElementTree as ET

DATA = "/repo/libmbus_test_data"
ROOT = DATA + "/test-frames"
# telegrams it rejects for a reason that is not claimed here
NOT_FAULTY = {"too_many_vife"}
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/corpus/readings.txt")


def text(node, tag):
    found = node.find(tag)
    return None if found is None else (found.text or "")


def field(v):
    return "-" if v is None else "=" + v.replace("\t", " ").replace("\n", " ")


def load(path):
    # they say they are Latin-1, and are UTF-8
    return ET.fromstring(open(path, encoding="utf-8").read().replace('encoding="ISO-8859-1"', ""))


lines = []
for xml in sorted(glob.glob(ROOT + "/*.norm.xml")):
    name = os.path.basename(xml)[: -len(".norm.xml")]
    frame = bytes.fromhex(open(f"{ROOT}/{name}.hex").read())
    root = load(xml)
    slave = root.find("SlaveInformation")
    if slave.find("Manufacturer") is None:
        continue  # fixed data structure
    lines.append("\t".join(["T", name, frame.hex().upper()] + [
        field(text(slave, t)) for t in
        ("Id", "Manufacturer", "Version", "ProductName", "Medium", "AccessNumber", "Status", "Signature")]))
    for rec in root.findall("DataRecord"):
        lines.append("\t".join(["R"] + [
            field(text(rec, t)) for t in
            ("Function", "StorageNumber", "Tariff", "Device", "Quantity", "Unit", "Value")]))
for path in sorted(glob.glob(DATA + "/error-frames/*.hex")):
    name = os.path.basename(path)[:-4]
    frame = bytes.fromhex(open(path).read()).hex().upper()
    if os.path.exists(path[:-4] + ".xml"):
        # an error the device reports
        root = load(path[:-4] + ".xml")
        lines.append("\t".join(["E", name, frame, field(text(root.find("SlaveInformation"), "Error"))]))
    elif name not in NOT_FAULTY:
        lines.append("\t".join(["F", name, frame]))
open(OUT, "w").write("\n".join(lines) + "\n")

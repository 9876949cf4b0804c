#!/usr/bin/env python3
# Writes contracts/retag.gv: setting the session id of each data packet kind changes only that.
F = {
 "DismissPacket": ("p.PacketHeader != nil && p.SessionData != nil", ["SessionData"]),
 "DismissAckPacket": ("p.PacketHeader != nil && p.SessionData != nil", ["SessionData"]),
 "SessionAckPacket": ("p.PacketHeader != nil && p.SessionData != nil", ["SessionData","negotiateID"]),
 "MessagePacket": ("p.PacketHeader != nil && p.Data != nil", ["Data"]),
 "MessageAckPacket": ("p.PacketHeader != nil && p.Data != nil", ["Data"]),
 "RequestPacket": ("p.MessagePacket != nil && p.PacketHeader != nil && p.Data != nil", ["Data"]),
 "ResponsePacket": ("p.MessageAckPacket != nil && p.PacketHeader != nil && p.Data != nil", ["Data"]),
 "StreamPacket": ("p.PacketHeader != nil", ["Data"]),
 "RegisterPacket": ("p.PacketHeader != nil", ["method"]),
 "RegisterAckPacket": ("p.PacketHeader != nil && p.RegisterData != nil", ["RegisterData"]),
 "RequestCancelPacket": ("p.PacketHeader != nil", ["cancelType"]),
}
MSG = "bytesEq(p.Data.Key, old(p.Data.Key)) && bytesEq(p.Data.Value, old(p.Data.Value)) && bytesEq(p.Data.Custom, old(p.Data.Custom)) && p.Data.Topic == old(p.Data.Topic) && p.Data.Error == old(p.Data.Error)"
SES = "bytesEq(p.SessionData.Meta, old(p.SessionData.Meta)) && p.SessionData.Error == old(p.SessionData.Error) && p.SessionData.Peer == old(p.SessionData.Peer)"
out = ["# generated by tools/gen_retag_gv.py", ""]
for k,(req,fs) in F.items():
    out.append(f"lemma retag.{k} [C03 C08] {{")
    out.append("  flags nopanic")
    out.append(f"  var p *packet.{k}")
    out.append("  var s uint64")
    out.append(f"  requires p != nil && {req}")
    out.append(f'  call = method(p, "SetSessionID", s)')
    out.append(f'  call g = method(p, "SessionID")')
    out.append(f'  assert tag: g == s && p.sessionID == s')
    out.append(f'  call i = method(p, "ID")')
    out.append(f'  assert id: i == p.PacketID && p.PacketHeader == old(p.PacketHeader) && p.PacketID == old(p.PacketID) && p.Typ == old(p.Typ) && p.Version == old(p.Version) && p.Cnss == old(p.Cnss)')
    for f in fs:
        if f == "Data" and k != "StreamPacket":
            out.append(f"  assert data: p.Data == old(p.Data) && {MSG}")
        elif f == "SessionData":
            out.append(f"  assert data: p.SessionData == old(p.SessionData) && {SES}")
        elif f == "RegisterData":
            out.append(f"  assert data: p.RegisterData == old(p.RegisterData) && p.RegisterData.Error == old(p.RegisterData.Error)")
        elif f in ("Data","method"):
            out.append(f"  assert data: sameslice(p.{f}, old(p.{f})) && bytesEq(p.{f}, old(p.{f}))")
        else:
            out.append(f"  assert {f}: p.{f} == old(p.{f})")
    out.append("  reach end")
    out.append("}")
    out.append("")
open("/verif/contracts/retag.gv","w").write("\n".join(out))

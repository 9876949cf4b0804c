#!/usr/bin/env python3
# Writes contracts/packet.gv (codec lemmas are the same text for each packet kind).
K = {
 # kind: (access prefix, requires, field conditions)
 "ConnPacket": ("p.PacketHeader != nil && p.ConnData != nil",
   [("ids","q.PacketID == p.PacketID && q.ClientID == p.ClientID"),
    ("flags","q.Retain == p.Retain && q.Clear == p.Clear && q.packetIDAcquire == p.packetIDAcquire && q.clientIDAcquire == p.clientIDAcquire"),
    ("heartbeat","q.Heartbeat == p.Heartbeat"),
    ("payload","q.ConnData != nil && bytesEq(q.ConnData.Meta, p.ConnData.Meta) && q.ConnData.Error == p.ConnData.Error")]),
 "ConnAckPacket": ("p.PacketHeader != nil && p.ConnData != nil",
   [("ids","q.PacketID == p.PacketID && q.ClientID == p.ClientID && q.RetCode == p.RetCode"),
    ("payload","q.ConnData != nil && bytesEq(q.ConnData.Meta, p.ConnData.Meta) && q.ConnData.Error == p.ConnData.Error")]),
 "DisConnPacket": ("p.PacketHeader != nil && p.PacketLen == 0", [("ids","q.PacketID == p.PacketID")]),
 "DisConnAckPacket": ("p.PacketHeader != nil && p.ConnData != nil",
   [("ids","q.PacketID == p.PacketID && q.RetCode == p.RetCode"),
    ("payload","q.ConnData != nil && bytesEq(q.ConnData.Meta, p.ConnData.Meta) && q.ConnData.Error == p.ConnData.Error")]),
 "HeartbeatPacket": ("p.PacketHeader != nil && p.PacketLen == 0", [("ids","q.PacketID == p.PacketID")]),
 "HeartbeatAckPacket": ("p.PacketHeader != nil && p.PacketLen == 0", [("ids","q.PacketID == p.PacketID")]),
 "SessionPacket": ("p.PacketHeader != nil && p.SessionData != nil && p.Qos >= 0 && p.Qos < 16",
   [("ids","q.PacketID == p.PacketID && q.negotiateID == p.negotiateID"),
    ("flags","q.Priority == p.Priority && q.Qos == p.Qos && q.sessionIDAcquire == p.sessionIDAcquire"),
    ("payload","q.SessionData != nil && bytesEq(q.SessionData.Meta, p.SessionData.Meta) && q.SessionData.Error == p.SessionData.Error && q.SessionData.Peer == p.SessionData.Peer")]),
 "SessionAckPacket": ("p.PacketHeader != nil && p.SessionData != nil",
   [("ids","q.PacketID == p.PacketID && q.negotiateID == p.negotiateID && q.sessionID == p.sessionID"),
    ("payload","q.SessionData != nil && bytesEq(q.SessionData.Meta, p.SessionData.Meta) && q.SessionData.Error == p.SessionData.Error && q.SessionData.Peer == p.SessionData.Peer")]),
 "DismissPacket": ("p.PacketHeader != nil && p.SessionData != nil",
   [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"),
    ("payload","q.SessionData != nil && bytesEq(q.SessionData.Meta, p.SessionData.Meta) && q.SessionData.Error == p.SessionData.Error && q.SessionData.Peer == p.SessionData.Peer")]),
 "StreamPacket": ("p.PacketHeader != nil && len(p.Data) < 2147483648",
   [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"), ("payload","bytesEq(q.Data, p.Data)")]),
 "RegisterPacket": ("p.PacketHeader != nil && len(p.method) < 2147483648",
   [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"), ("payload","bytesEq(q.method, p.method)")]),
 "RegisterAckPacket": ("p.PacketHeader != nil && p.RegisterData != nil",
   [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"), ("payload","q.RegisterData != nil && q.RegisterData.Error == p.RegisterData.Error")]),
 "RequestCancelPacket": ("p.PacketHeader != nil",
   [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"), ("payload","q.cancelType == p.cancelType")]),
}
K["DismissAckPacket"] = K["DismissPacket"]
MSG = [("ids","q.PacketID == p.PacketID && q.sessionID == p.sessionID"),
       ("payload","q.Data != nil && bytesEq(q.Data.Key, p.Data.Key) && bytesEq(q.Data.Value, p.Data.Value) && bytesEq(q.Data.Custom, p.Data.Custom)"),
       ("text","q.Data.Topic == p.Data.Topic && q.Data.Error == p.Data.Error"),
       ("times","q.Data.Timeout == p.Data.Timeout && q.Data.Deadline == p.Data.Deadline && q.Data.Context.Deadline == p.Data.Context.Deadline")]
K["MessagePacket"] = ("p.PacketHeader != nil && p.Data != nil", MSG)
K["MessageAckPacket"] = K["MessagePacket"]
K["RequestPacket"] = ("p.MessagePacket != nil && p.MessagePacket.PacketHeader != nil && p.Data != nil", MSG)
K["ResponsePacket"] = ("p.MessageAckPacket != nil && p.MessageAckPacket.PacketHeader != nil && p.Data != nil", MSG)
ORDER = ["ConnPacket","ConnAckPacket","DisConnPacket","DisConnAckPacket","HeartbeatPacket","HeartbeatAckPacket","SessionPacket","SessionAckPacket","DismissPacket","DismissAckPacket","MessagePacket","MessageAckPacket","StreamPacket","RequestPacket","ResponsePacket","RequestCancelPacket","RegisterPacket","RegisterAckPacket"]
out = ["# generated by tools/gen_packet_gv.py - codec lemmas over packet.Encode, packet.Decode, packet.DecodeFromReader",""]
for k in ORDER:
    req, fl = K[k]
    # one lemma per heartbeat interval: the encoding of the interval is decided by evaluation
    for how, hb in [(h, v) for h in ("buffer","reader") for v in ((5,20,80,320) if k == "ConnPacket" else (0,))]:
        out.append(f"lemma codec.{how}.{k}{'.%d' % hb if hb else ''} [C01] {{")
        out.append(f"  flags nopanic")
        out.append(f"  var p *packet.{k}")
        out.append(f"  requires p != nil && {req}")
        if hb:
            out.append(f"  requires p.Heartbeat == {hb}")
        out.append(f"  requires p.Typ == packet.Type{k}")
        out.append(f"  call d, e = packet.Encode(iface(p, \"packet.Packet\"))")
        out.append(f"  when e == nil")
        out.append(f"  assert frame: len(d) >= 14 && int(u32be(d, 10)) == len(d) - 14 && u64be(d, 2) == p.PacketID && d[1] == byte(packet.Type{k}) && d[0] == byte(p.Version)")
        if how == "buffer":
            out.append(f"  call x, n, e2 = packet.Decode(d)")
        else:
            out.append(f"  let r = reader(d)")
            out.append(f"  call x, e2 = packet.DecodeFromReader(r)")
        out.append(f"  assert decoded: e2 == nil && istype(x, \"*packet.{k}\")")
        out.append(f"  when e2 == nil && istype(x, \"*packet.{k}\")")
        if how == "reader":
            out.append(f"  assert consumed: rpos(r) == len(d)")
        out.append(f"  let q = astype(x, \"*packet.{k}\")")
        for n, c in fl:
            out.append(f"  assert {n}: {c}")
        out.append(f"  assert version: q.Version == p.Version && q.Typ == p.Typ")
        out.append(f"  reach end")
        out.append("}")
        out.append("")
open("/verif/contracts/codec.gv","w").write("\n".join(out))

id = 'drained_after_close'
property = 'C23'
kit = 'live'
needs = 'an input which is sent to a component whose client has left before it could be shown'
breaks = 'the component traps when it cannot show an update, so it is never dropped'
edits = [('puck_liveview/src/component/mod.rs', '''    let _ = stream.send(Message::Text(
        serde_json::to_string(&InstructionSerializer(instructions)).unwrap(),
    ));''', '''    stream
        .send(Message::Text(
            serde_json::to_string(&InstructionSerializer(instructions)).unwrap(),
        ))
        .expect("failed to send the changeset");''')]
client = r'''
a = App()
ok = []
for i in range(40):
    p = Page(a, [view(el("div"))], handle=True)
    p.next()
    for k in range(10):
        p.show(view(el("div", t=str(k))))
    p.c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    p.c.close()
    for k in range(10):
        p.show(view(el("div", t=str(k))))
    ok.append(a.wait(lambda: any(e["ev"] == "drop" and e["id"] == p.id for e in a.events), 5))
    if not ok[-1]:
        break
a.verdict(all(ok), "not dropped")
'''

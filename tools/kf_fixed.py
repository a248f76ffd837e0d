import json,subprocess
prop={"Timer: an":"C26","Timer: acc":"C26","past_value":"C28","OneHot":"C30","Transac":"C04","NumberTo":"C25","StreamInterface":"C09","StreamArb":"C05","ConstantS":"C06","PacketList":"C08","I2CInit":"C20","I2CStream":"C10","SPIController":"C15","SPIDevice":"C14","SPI interfaces":"C14","FixedPointFFT":"C35","FixedPoint":"C31","WS2812":"C19", "SerialLED":"C18", "I2S:":"C22", "I2ST":"C22", "ILA:":"C36","StreamILA":"C36","SyncSerialILA":"C36","AsyncSerialILAF":"C36","Wishbone":"C37","StereoConv":"C34","FractionalR":"C33","bits":"C01","ILAFront":"C36","FixedPointFFT":"C35"}
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","bed4a93..HEAD"],text=True).splitlines():
    h,s=l.split(" ",1); s=s.removeprefix("fix: ")
    p=[v for k,v in prop.items() if s.startswith(k)][0]
    out.append(f"fixed: property={p} {h} {s}")
old=json.load(open("known_findings.json"))
json.dump(dict(findings=old["findings"],fixed=out),open("known_findings.json","w"),indent=1)

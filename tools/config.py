# Which replay harness files are laid over which package, per property.
HARNESS = {
    "C01": [("pkg/peer", ["common", "peer/build.go", "peer/c01.go"])],
    "C05": [("pkg/peer", ["common", "peer/build.go", "peer/session.go", "peer/c05.go"])],
    "C06": [("pkg/peer", ["common", "peer/build.go", "peer/session.go", "peer/c06.go"])],
    "C07": [("pkg/peer", ["common", "peer/build.go", "peer/session.go", "peer/c07.go"])],
    "C11": [("pkg/peer", ["common", "peer/build.go", "peer/c11.go"])],
    "C12": [("pkg/peer", ["common", "peer/build.go", "peer/c12.go"])],
    "C02": [("pkg/torrent", ["common", "torrent/build.go", "torrent/c02.go"])],
    "C03": [("pkg/torrent", ["common", "torrent/build.go", "torrent/c02.go", "torrent/c03.go"])],
    "C04": [("pkg/torrent", ["common", "torrent/c04.go"])],
    "C17": [("pkg/torrent", ["common", "torrent/c17.go"])],
    "C18": [("pkg/torrent", ["common", "torrent/c18.go"])],
    "C24": [("pkg/torrent", ["common", "torrent/c24.go"]), ("pkg/stats", ["common", "stats/c24.go"]), ("pkg/download", ["common", "download/build.go", "download/c23.go", "download/c24.go"])],
    "C22": [("pkg/stats", ["common", "stats/c22.go"]), ("pkg/stats", ["common", "stats/bar.go"])],
    "C19": [("pkg/tracker", ["common", "tracker/c19.go"])],
    "C20": [("pkg/tracker", ["common", "tracker/c20.go"])],
    "C21": [("pkg/tracker", ["common", "tracker/c21.go"])],
    "C23": [("pkg/download", ["common", "download/build.go", "download/c23.go"])],
    "C25": [("pkg/download", ["common", "download/build.go", "download/c25.go"])],
    "C14": [("pkg/bencode", ["common", "bencode/build.go", "bencode/c14.go"])],
    "C15": [("pkg/bencode", ["common", "bencode/build.go", "bencode/c15.go"])],
    "C16": [("pkg/bencode", ["common", "bencode/build.go", "bencode/meta.go", "bencode/c16.go"])],
    "C13": [("pkg/bencode", ["common", "bencode/build.go", "bencode/meta.go", "bencode/c13.go"]), ("pkg/torrent", ["common", "torrent/c13.go"]), ("pkg/tracker", ["common", "tracker/c13.go"])],
    "C08": [("pkg/util", ["common", "util/c08.go"])],
    "C09": [("pkg/gotitnet", ["common", "gotitnet/conn.go", "gotitnet/c09.go"])],
    "C10": [("pkg/gotitnet", ["common", "gotitnet/conn.go", "gotitnet/c10.go"])],
}
# properties whose harness runs under the race detector
RACE = {"C24"}
TRUSTED = [
    "govc (the condition generator in /verif/govc: Go SSA semantics, heap model, simplifier)",
    "golang.org/x/tools/go/ssa, go/types (the SSA form of the real source)",
    "z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (any one accepting discharges an obligation)",
]
PKGNAME = {"cmd/root": "main"}

"""What is claimed, per property."""
TLA = "TLA+ specification explored with TLC; %s"
T = {
 "P01": ("model_checking", TLA % "every byte string over the syntactically relevant classes enumerated by WireGen.tla sent through real sessions; recorded wire bytes read back by Wire.tla (trace validation)"),
 "P02": ("model_checking", TLA % "lines enumerated by WireGen.tla with the meaning Wire.tla gives them replayed on the real reader; arbitrary lines interpreted by Wire.tla"),
 "P03": ("model_checking", TLA % "streams cut at every byte, meaning of each prefix computed by Wire.tla, compared with the real endpoint under a watchdog"),
 "P04": ("model_checking", TLA % "behaviours of Session.tla replayed with log callbacks; log compared with the transferred bytes after every call"),
 "P05": ("model_checking", TLA % "every behaviour of Session.tla (server mode) within the bounds replayed on the real server handle and compared"),
 "P06": ("model_checking", TLA % "every behaviour of Session.tla (client mode) within the bounds replayed on the real client handle and compared"),
 "P07": ("model_checking", TLA % "closed client-server behaviours of Session.tla replayed on two real handles connected by the harness"),
 "P08": ("model_checking", TLA % "behaviours of Session.tla with terminations, illegal calls and lost peers replayed on the real handles"),
 "P09": ("model_checking", TLA % "behaviours of Session.tla with illegal calls replayed; bytes sent, result and reason compared"),
 "P10": ("model_checking", TLA % "declarations, hello messages and first lines enumerated by SetupMC.tla replayed on real handles; raw hello read back by Setup.tla (trace validation)"),
 "P11": ("model_checking", TLA % "multi-object behaviours of Session.tla replayed on the real handles"),
 "P12": ("model_checking", TLA % "images and image texts enumerated by ImageMC.tla sent through real sessions; texts that travelled read back by Image.tla (trace validation)"),
 "P13": ("model_checking", TLA % "texts and masks enumerated by RegionTextMC.tla replayed; texts written by the code read back by RegionText.tla (trace validation)"),
 "P14": ("model_checking", TLA % "hostile texts enumerated by RegionTextMC.tla, their meaning given by RegionText.tla, replayed under AddressSanitizer and in both roles of a session"),
 "P15": ("model_checking", TLA % "regions enumerated by GeometryMC.tla with bounds, conversions and covered pixels of Geometry.tla compared with the real code"),
 "P16": ("model_checking", TLA % "overlap of pairs of enumerated regions computed by Geometry.tla as a quotient of pixel counts and compared with the real code"),
 "P17": ("model_checking", TLA % "point probes on regions enumerated by GeometryMC.tla, membership given by Geometry.tla"),
 "P18": ("model_checking", TLA % "every transition of the map model Maps.tla replayed on real property sets, all sets read back through every getter; random longer histories"),
 "P19": ("model_checking", TLA % "Sharing.tla (values, copies, lists) shown to refine independent values; its transitions and random behaviours replayed on C++ objects of every kind under AddressSanitizer, allocations accounted"),
 "P20": ("model_checking", TLA % "every transition of Lists.tla replayed on real object and image lists, every list, element and caller's object read back"),
 "P23": ("model_checking", TLA % "command lines enumerated by LaunchMC.tla with the words Launch.tla gives them, environments, directories and connection modes launched by the real controller and reported back by the launched program; descriptors against the ownership model Spawn.tla"),
 "P24": ("model_checking", TLA % "complete behaviours of Evaluate.tla executed with the real command line client and a scripted tracker; overlaps of the answers computed by Geometry.tla"),
 "P21": ("model_checking", TLA % "histories of the controller under every fault plan of Controller.tla executed with the real controller and real tracker processes; observed outcomes and times checked as a trace of Controller.tla; schedules of the supervising thread enumerated by Supervise.tla / Monitor.tla forced on the real code"),
 "P22": ("model_checking", TLA % "as P21, with the processes, zombies and descriptors left after every operation compared with what Controller.tla allows; several controllers, killings from outside, forced interleavings"),
 "P25": ("model_checking", TLA % "behaviours of Session.tla from the server's and the client's side replayed on the Python classes, bytes sent and values received compared; declarations and introductions judged by Setup.tla; Python trackers under the native controller"),
 "P26": ("model_checking", TLA % "behaviours of Session.tla from the server's side replayed on the Octave function; every matrix given by Matlab.tla; behaviours of the client loop MatlabMC.tla executed by the Octave client with real tracker processes"),
}
NA = []
NOTES = "TLA+ with TLC; see DESIGN.md."

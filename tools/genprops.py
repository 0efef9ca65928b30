import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
SVX=["stl2svx/master/master.go","stl2svx/agent/agent.go","stl2svx/stl/stl.go","stl2svx/stl2svx-server/stl2svx-server.go"]
p("C01","A finished SVX job is exactly the base solid minus its cuts",
 "While every agent stays healthy, a well-formed job succeeds and the archive it returns is a valid ZIP whose first entry is the manifest and which then holds, exactly once each, a PNG for every layer named by the manifest's slice pattern (0 to layers+1, the first and the last entirely black); the manifest gives the grid sizes including that border. In layer k a pixel - inside a one-pixel black border, with Y mirrored - is white exactly when the base's voxelisation has that voxel and no cut's voxelisation has it. This holds for every number of agents, every division of the grid, every order in which layers finish and every interleaving inside the agents.",
 ["schedules","inputs","configurations"],"every well-formed job, number of agents, nx/ny/nz, network timing and goroutine interleaving in master and agents",
 "No test runs the master, an agent or the server; goroutine and reply order are never varied.",
 SVX+["binvox/voxelize.go"],
 [("one goroutine per layer, idle-agent pool, mutex-guarded zip writer","stl2svx/master/master.go: NewJob, runAgent"),("base/cut merge per pixel that must not depend on arrival order","stl2svx/agent/agent.go: imager")],
 [("idleAgents","agents free to take a layer","stl2svx/master/master.go"),("zip writer","archive under construction","stl2svx/master/master.go")],["NewJob reply bytes"])
p("C02","A successful SVX job reply is never partial or wrong",
 "Whatever agents and the network do during a job - agents crash, restart, refuse connections, drop connections before or after doing the work, reply with errors, are slow or partitioned away - an OK reply carries the complete, correct archive. If the archive cannot be completed, the client gets an error instead.",
 ["fault_sequences","crash_points","schedules"],"every sequence of agent crashes, restarts, connection failures, partitions and error replies, at every point of a job",
 "No test injects a failing agent or connection.",
 SVX,[("per-layer assignment with error handling","stl2svx/master/master.go: runAgent")],None,["NewJob reply status and bytes"])
p("C03","SVX jobs make progress once faults stop; no healthy agent is lost",
 "Once faults have stopped and at least one registered agent is reachable, every pending well-formed job whose client still waits ends within a bounded time. A reachable agent that suffered a transient failure stays usable: a later job completes successfully even when that agent is the only one left.",
 ["fault_sequences","schedules","histories"],"every finite fault sequence followed by a quiet period, any number of jobs and agents",
 "Liveness after faults needs a controlled clock and network; no test has one.",
 SVX,[("agents return to the idle pool after a layer","stl2svx/master/master.go: runAgent, getIdleAgent")],[("idleAgents","agents free to take a layer","stl2svx/master/master.go")],["NewJob completion"])
p("C04","Concurrent SVX jobs do not affect each other's results",
 "When several clients have jobs running at the same time on one master, sharing its agents, each successful reply is the archive its own job would have produced alone. No shared state is accessed without synchronisation.",
 ["schedules","histories","inputs"],"every overlap of two or more jobs and every interleaving",
 "No test starts two jobs.",
 SVX[:2],[("job state versus master state","stl2svx/master/master.go: NewJob")],[("zip writer","archive under construction","stl2svx/master/master.go")],["NewJob replies"])
p("C05","The master gives an agent at most one layer at a time",
 "At every instant each registered agent has at most one layer request from the master outstanding, across all concurrent jobs, failures and retries. Layer requests go only to addresses that registered.",
 ["schedules","fault_sequences","histories"],"every set of concurrent jobs, agents, failures and interleavings (an agent registers its address once per incarnation)",
 "Exclusivity is a property of all interleavings of a shared pool.",
 SVX[:1],[("check-out and return of idle agents","stl2svx/master/master.go: getIdleAgent, runAgent")],[("idleAgents","agents free to take a layer","stl2svx/master/master.go")],["SliceJob requests seen on the network"])
p("C06","Cancelling an SVX job ends it and strands nothing",
 "When the client of a running job cancels, hits its deadline or dies, the job ends within a bounded time even if no agent ever becomes available, and no further layers of it are handed out afterwards. The agents it used serve the next job.",
 ["fault_sequences","crash_points","schedules"],"cancellation or client death at every point of a job, with any agent availability",
 "Cancellation points cannot be sampled by a unit test; none cancels anything.",
 SVX[:2],[("request context carried through NewJob, runAgent and SliceJob","stl2svx/master/master.go")],None,["NewJob completion","SliceJob requests on the network"])
p("C07","No request can take down the SVX master or an agent",
 "For every RegisterAgent, NewJob and SliceJob message a client can send - missing meshes or vertices, zero or negative sizes or divisions, degenerate, flat, partly flat or non-finite geometry, cuts that reach outside the base, layer numbers out of range - the server answers with a reply or an error - always an error if the request has no base mesh, a missing or non-finite coordinate, a size or division that is not positive, or a layer that is not there - and keeps serving later jobs correctly. Exhausting memory or time by honest size is excluded.",
 ["inputs","histories","schedules"],"every sequence of malformed and well-formed requests, concurrent with healthy jobs",
 "Tests never exercise the services; a crash in one request kills unrelated jobs.",
 SVX[:3],[("request validation","stl2svx/stl/stl.go: New"),("error propagation from the agent's pipeline","stl2svx/agent/agent.go")],None,["process liveness","replies"])
p("C08","Voxelisation is deterministic, race-free, in-region and matches the solid",
 "Voxelising a closed mesh over a region yields, under every interleaving of its worker goroutines, the same set of voxels, all inside the declared region, without data races. Every voxel whose centre lies more than one and a half voxels inside the solid is set and none whose centre lies more than one and a half voxels outside is; in each layer whose centre plane cuts an axis-aligned box, exactly the cells the box touches in x and y are set. Voxelising a single layer gives exactly that layer of the full voxelisation.",
 ["schedules","inputs"],"every interleaving of the per-layer and per-row goroutines, every closed mesh and region",
 "TestVoxelize voxelises one file once under the runtime's own schedule.",
 ["binvox/voxelize.go","binvox/binvox.go"],[("goroutine per layer and per row adding to one shared set under a mutex","binvox/voxelize.go: Voxelize, floodFill")],None,["WhiteVoxels"])
p("C09","Dicing a model into regions does not change it",
 "Voxelising a model region by region, for any division in x, y and z and with regions processed in any order or concurrently on one shared mesh, yields exactly the voxels of voxelising it whole: nothing lost, duplicated or shifted at a region boundary. Region files written and read back keep that.",
 ["configurations","schedules","inputs"],"every division, every order and overlap of region processing",
 "No test dices; region processing is only run whole.",
 ["binvox/voxelize.go","cmd/stldice/stldice.go","stl2svx/agent/agent.go"],[("translation and scale of regions derived from the whole","cmd/stldice/stldice.go: diceMesh; stl2svx/agent/agent.go: generateMR")],None,["WhiteVoxels","region files"])
p("C10","Merging STL files concurrently yields exactly their union or an error",
 "Merging any list of STL files with any number of workers ends under every interleaving and returns a mesh containing each file's triangles exactly once; if any file cannot be read completely it returns an error instead. No more files than the requested number of workers are open at once, and there are no data races.",
 ["schedules","fault_sequences","inputs"],"every interleaving of workers, every list of files, every failing or short read",
 "There is no test of the merge; worker interleaving and read failures are never exercised.",
 ["stl/stl.go"],[("semaphore channel, mutex-guarded mesh, error hand-over","stl/stl.go: Merge")],None,["returned mesh and error"])
p("C11","A binvox file is written completely or the failure is reported",
 "When writing a binvox model reports success, reading the file back - in reads of any size - gives the same dimensions, placement and voxels (a model without any voxel comes back without any); when only a window of the model is written, the file has the window's dimensions and its voxels counted from the window's corner. When creating, writing, flushing or closing fails, the write reports an error. After a failure, a crash or a power loss at any point, the target name holds either exactly what it held before or the complete new file, and reading reports an I/O error rather than a smaller model.",
 ["fault_sequences","crash_points","inputs"],"every failing, short or torn I/O operation and every crash point, over all models",
 "TestRead reads intact in-memory data; nothing tests writing, failures or crashes.",
 ["binvox/write.go","binvox/read.go"],[("error checks on header, run data and close; publication of the file","binvox/write.go: Write, write"),("read error handling","binvox/read.go: read")],None,["returned errors","file contents"])
p("C12","A vshell file is written completely or the failure is reported",
 "When writing a vshell model reports success, reading the file back gives the same dimensions, placement, voxels and neighbour masks, however long the runs of empty space and however the reads are chunked; when only a window of the model is written, the file has the window's dimensions and its voxels counted from the window's corner. When creating, writing or closing fails, the write reports an error; after a failure, a crash or a power loss at any point, the target name holds either exactly what it held before or the complete new file. Reading reports an I/O error rather than a smaller model. No goroutine is left behind either way.",
 ["fault_sequences","inputs","schedules"],"every failing or short I/O operation, over all models",
 "TestRead reads intact in-memory data; nothing tests writing or failures.",
 ["vshell/write.go","vshell/read.go"],[("error checks on header, run data and close; encoder goroutine feeding the writer","vshell/write.go: Write, write, encode"),("read error handling","vshell/read.go: read")],None,["returned errors","file contents","goroutines"])
p("C13","Damaged binvox and vshell files never crash the reader or invent voxels",
 "Reading a file that was torn, truncated, lost blocks, had bytes altered or is still being written ends with an error or with a model, never with a crash or a hang. If the file is a prefix of a valid one, every voxel returned is one the valid file contains, and a file that ends inside its header or inside a run is reported as an error; a model returned from any file has the dimensions its header declares and lies inside them and inside the requested window.",
 ["crash_points","fault_sequences","inputs"],"every truncation point, torn write and byte corruption of every valid file, every read window",
 "TestRead has a handful of intact inputs; storage damage is never generated.",
 ["binvox/read.go","vshell/read.go"],[("format and bounds checks while decoding","binvox/read.go: read; vshell/read.go: read")],None,["returned model or error"])
p("C14","An interrupted stldice run can be resumed to the right result",
 "If stldice is killed or loses power at any point, or fails on an I/O error (reported by a failing exit), running the same command again until it succeeds leaves exactly the region files an undisturbed run leaves, and no truncated region file is ever taken for a finished one. The script printed by a successful run always names every non-empty region exactly once, including regions found already on disk. A command whose input is missing or torn, or whose box is malformed, fails, and the right command still gives the right files afterwards.",
 ["crash_points","fault_sequences","configurations"],"every crash point, I/O fault and restart sequence over all models and divisions",
 "No test runs the command; crash points cannot be sampled by unit tests.",
 ["cmd/stldice/stldice.go","binvox/write.go"],[("existing region files are skipped","cmd/stldice/stldice.go: diceMesh"),("publication of region files","binvox/write.go: Write")],[("region files","durable progress of a dicing run","file system")],["region files","stdout","exit status"])
p("C15","voxcut reports success only for a complete and correct cut",
 "When voxcut exits successfully, every requested output (binvox, vox, stl) is complete and is, within the requested window, the base minus all cut models, where models of the same voxel size meet as their translations (offsets by whole voxels, up to rounding) and dimensions place them (a cut file that does not exist counts as empty). If the base or an existing cut cannot be read completely, or an output cannot be written completely, it exits with a failure; if nothing goes wrong and voxels remain, it succeeds.",
 ["fault_sequences","inputs","configurations"],"every I/O fault at every operation, over all bases, cuts, windows and output kinds",
 "The only voxcut test is commented out or trivial; I/O failure is never exercised.",
 ["cmd/voxcut/voxcut.go","binvox/read.go","binvox/write.go"],[("exit status on read, cut and write errors","cmd/voxcut/voxcut.go: main, writeVOX")],None,["exit status","output files"])
p("C16","voxcut-dice covers the model and stops on the first failure",
 "The commands voxcut-dice runs (or prints) tile the model: every voxel index is covered by exactly one command's window, each with its own output name and the same inputs. When every command succeeds it exits successfully with all tile outputs written; when a command fails, is killed or cannot be started, it exits with a failure.",
 ["fault_sequences","configurations","crash_points"],"every model size and tile size, every failing child process",
 "No test runs the command or any child process.",
 ["cmd/voxcut-dice/voxcut-dice.go","cmd/voxcut/voxcut.go"],[("tiling loops and child process handling","cmd/voxcut-dice/voxcut-dice.go: main")],None,["child command lines","exit status","output files"])
p("C17","The merge tools report success only for a complete merged file",
 "When merge-stl or merge-binvox exits successfully, its output file is complete and is the merge of every matching input file, excluding its own earlier output. If there is nothing to merge, an input cannot be read completely or the output cannot be written completely, it exits with a failure and without crashing; if nothing goes wrong it succeeds. Without -f an existing output file is never changed.",
 ["fault_sequences","schedules","configurations"],"every I/O fault at every operation, every set of files present, every interleaving of merge workers",
 "No test runs the commands.",
 ["cmd/merge-stl/merge-stl.go","cmd/merge-binvox/merge-binvox.go","stl/stl.go","vshell/merge.go","vshell/write.go"],[("overwrite check, error exits","cmd/merge-stl/merge-stl.go: main; cmd/merge-binvox/merge-binvox.go: main")],None,["exit status","output files"])
p("C18","svx2stl converts an archive independently of entry order, or fails",
 "When svx2stl exits successfully, the STL file it wrote is complete and depends only on the layer images and manifest, not on the order in which the archive stores the layers or in which voxels are visited. If the archive is truncated, an entry's content is damaged, the archive cannot be read, or the output cannot be written completely, it exits with a failure.",
 ["schedules","fault_sequences","inputs"],"every order of layers in the archive, every map iteration order, every I/O fault and truncation point",
 "TestParseManifest parses one manifest; reading archives and I/O failure are never exercised.",
 ["cmd/svx2stl/main.go","binvox/marching-cubes.go"],[("layer number parsed from the entry name","cmd/svx2stl/main.go: read")],None,["exit status","output files"])
p("C19","The SVX client's exit status tells whether the SVX file is complete",
 "When stl2svx-client exits successfully, the SVX file it names is complete and is the correct archive for the STL files it was given. If an STL file cannot be read, the master cannot be reached, fails or dies, or the file cannot be written completely, it exits with a failure.",
 ["fault_sequences","crash_points","schedules"],"every failure of local I/O, network, master and agents during a run of the real client against the real servers",
 "No test runs client and servers together.",
 ["stl2svx/stl2svx-client/stl2svx-client.go"]+SVX,[("error exits on load, RPC and write","stl2svx/stl2svx-client/stl2svx-client.go: main")],None,["exit status","SVX file"])
p("C20","Mesh tools write complete, closed, order-independent meshes or fail",
 "When marching-cubes or manifold-mesh exits successfully, the STL file it names is complete and is the same surface in whatever order the voxels are visited; if the model cannot be read completely or the file cannot be written completely, it exits with a failure. Every surface from marching-cubes is closed and has exactly the model's voxels (their centres) inside. So has every surface from manifold-mesh for a model in which, around each grid corner, the voxels are connected through faces and the empty cells are too.",
 ["schedules","fault_sequences","inputs"],"every model, every map iteration order, every I/O fault",
 "TestManifoldMesh has a fixed list of small voxel sets; no test runs the commands or injects I/O failures.",
 ["binvox/manifold.go","binvox/face-templates.go","binvox/marching-cubes.go","cmd/manifold-mesh/manifold-mesh.go","cmd/marching-cubes/marching-cubes.go"],[("face templates per neighbourhood","binvox/manifold.go: grid2tris"),("exit status on read and save errors","cmd/manifold-mesh/manifold-mesh.go: main; cmd/marching-cubes/marching-cubes.go: main")],None,["exit status","output files"])
p("C21","A voxel shell is the exact shell of the union of everything added to it",
 "After adding any sequence of voxel models that do not overlap, at any mutual offsets, a voxel shell contains exactly the voxels of the union that have at least one empty neighbour, each with its exact neighbour mask.",
 ["inputs","histories","schedules"],"every sequence of disjoint models and offsets, every map iteration order","TestAdd has a fixed list of two-model additions.",
 ["vshell/merge.go"],[("neighbour masks updated on both sides of a junction","vshell/merge.go: Add, update")])
p("C22","binvox-dice prints a complete script that tiles the box, or fails",
 "When binvox-dice exits successfully, the script it printed is complete and, run with binvox (which writes the first free of a.binvox, a_1.binvox, ... for an input a.stl) and voxcut, cuts the given bounding box into the cells of a regular grid - factor cells along each subdivided axis - that cover it without gap or overlap: each cell is voxelized once from every input file with the same box, and combined once, inputs in the given order, into an output of its own (for distinct .stl input names without whitespace or shell syntax and not starting with out). If the box cannot be parsed, the factor is below one, no file is given or the script cannot be written completely, it exits with a failure.",
 ["configurations","inputs","fault_sequences"],"every box, factor, choice of axes and list of files, every failing write of the script",
 "No test runs the command.",
 ["cmd/binvox-dice/binvox-dice.go"],[("subdivision loops and names of the binvox files","cmd/binvox-dice/binvox-dice.go: main")],None,["exit status","standard output"])
p("C23","The whole STL pipeline gives the base minus the cuts, or fails, also when rerun",
 "When stldice and then every command of the script it prints have run in a directory of their own and succeeded - voxcut failing only where the cuts leave nothing of a region - the STL file named last is complete and contains exactly the voxels of the base minus the cuts, also if earlier attempts were killed, lost power or failed at any point and everything was run again. If nothing goes wrong they succeed.",
 ["crash_points","fault_sequences","schedules","configurations"],"every model, region grid and tiling, every point at which an attempt is killed, loses power or fails before everything is run again",
 "No test runs any of the commands, alone or together.",
 ["cmd/stldice/stldice.go","cmd/voxcut/voxcut.go","cmd/merge-stl/merge-stl.go","binvox/voxelize.go","outfile/outfile.go","stl/stl.go"],[("the script of voxcut and merge commands","cmd/stldice/stldice.go: main"),("overwriting and completing of outputs","cmd/voxcut/voxcut.go: main; cmd/merge-stl/merge-stl.go: main")],None,["exit status","output files"])
p("C24","What the SVX client writes, svx2stl reads",
 "Whenever the SVX client has succeeded, svx2stl - unless its own I/O fails - reads the file it wrote and converts it to a complete STL file whose surface encloses exactly the voxels of the base minus the cuts, up to uniform scale, position and mirroring, whatever the divisions and the prefix of the job (without slashes and control characters other than tabs).",
 ["inputs","configurations","schedules","fault_sequences"],"every model, division and prefix, every order in which layers come back from the agents, every failing or killed attempt to convert before one that succeeds",
 "No test has one program read what another one wrote.",
 SVX+["stl2svx/stl2svx-client/stl2svx-client.go","cmd/svx2stl/main.go","binvox/marching-cubes.go"],[("names of the layers and their pattern in the manifest","stl2svx/master/master.go: imageName, writeManifest; cmd/svx2stl/main.go: read")],None,["exit status","SVX and STL files"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))

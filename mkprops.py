#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': [dict(name=state, meaning='state the property is about', where=files[0])]} if state else {}), **({'observe_at': [observe]} if observe else {}),
                     hook_needed=hook)))

add('P01', 'Planar and outerplanar answers are certified, on any object history',
 'When the planarity or outerplanarity algorithm reports success, the graph object holds exactly the input edges in a rotation system whose face count satisfies Euler\'s formula for every component (and, for outerplanarity, one face meets every vertex of the component); when it reports non-embeddable, the object holds a subgraph of the input that is homeomorphic to K5 or K3,3 (respectively K4 or K2,3). This does not depend on what the object did before (edits, earlier runs and reinitialisation, copying, reading, unrelated attached extensions, an earlier failed call), and the library\'s own integrity check agrees with the result. Restoring the original vertex order afterwards gives back the caller\'s vertex labels.',
 ['histories', 'inputs', 'fault_sequences'],
 'For every sequence of operations that leads a graph object to the call, every simple graph, and every pattern of earlier allocation failures.',
 'Tests run each algorithm once per fresh or reinitialised object on the graphs of at most 10 vertices plus a handful of samples; they cannot cover larger structures reached through reuse, copying, editing and failure histories.',
 ['c/graphLib/planarityRelated/graphEmbed.c', 'c/graphLib/planarityRelated/graphIsolator.c', 'c/graphLib/planarityRelated/graphNonplanar.c', 'c/graphLib/planarityRelated/graphOuterplanarObstruction.c', 'c/graphLib/graphUtils.c', 'c/graphLib/graphDFSUtils.c'],
 [('edge addition: walkup, walkdown, bicomp merge', 'graphEmbed.c gp_Embed'), ('Kuratowski / outerplanar obstruction isolation', 'graphIsolator.c, graphOuterplanarObstruction.c'), ('object reset for reuse', 'graphUtils.c gp_ReinitializeGraph')],
 'rotation system and per-vertex embedding state of a graph object', 'return value, adjacency lists, written output')

add('P02', 'Homeomorph searches answer correctly with a real witness',
 'The K2,3, K3,3 and K4 searches report "found" exactly when the input contains a subgraph homeomorphic to the target, and then the graph object holds such a subgraph of the input with the caller\'s vertex labels recoverable; "not found" is reported only for graphs that contain none. The answer does not depend on the object\'s history, on other extensions being attached, or on the order in which edges and vertices were entered.',
 ['histories', 'inputs', 'fault_sequences'],
 'For every simple graph and every history of the graph object (reuse after other algorithms, extension attach order, copies, earlier failures).',
 'The tests compare counts on graphs of at most 10 vertices, always on the same kind of object; wrong answers that need larger 3-connected pieces, several blocked regions or a reused object are outside them.',
 ['c/graphLib/homeomorphSearch/graphK23Search.c', 'c/graphLib/homeomorphSearch/graphK33Search.c', 'c/graphLib/homeomorphSearch/graphK4Search.c', 'c/graphLib/homeomorphSearch/graphK33Search_Extensions.c', 'c/graphLib/homeomorphSearch/graphK4Search_Extensions.c'],
 [('blocked-bicomp handlers of the searches', 'graphK33Search.c, graphK4Search.c, graphK23Search.c'), ('per-search auxiliary state and its reset', '*_Extensions.c ReinitializeGraph / InitStructures')],
 'search extension contexts attached to the graph', 'return value and resulting subgraph')

add('P03', 'Planar drawings are valid visibility representations',
 'After a successful planar drawing, vertices have pairwise distinct vertical positions and non-empty horizontal extents inside the drawing, edges have pairwise distinct horizontal positions, every edge spans exactly the levels of its two endpoints and touches their extents, and no edge crosses the extent of any other vertex; the rendered text shows exactly that drawing. This also holds after the vertices are put back into the caller\'s order, on reused or copied objects, and for drawings written out and read back.',
 ['histories', 'inputs', 'fault_sequences'],
 'For every planar input graph, connected or not, and every history of the object that carries the drawing.',
 'Only two sample drawings are compared and otherwise the library\'s own checker is consulted on small fresh graphs; nothing exercises drawings after reordering, copying, failures, persistence or reuse.',
 ['c/graphLib/planarityRelated/graphDrawPlanar.c', 'c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c'],
 [('tie breaking and position computation', 'graphDrawPlanar.c'), ('reordering and persistence of drawing data', 'graphDrawPlanar_Extensions.c SortVertices, ReadPostprocess, WritePostprocess')],
 'drawing positions per vertex and edge', 'written drawing section, rendered text')

add('P04', 'Edit histories behave like a simple ordered-adjacency graph',
 'After any sequence of adding (plain, growing and positioned insertion), deleting, hiding and restoring edges, hiding, contracting, identifying and restoring vertices, setting edge direction, growing capacity and reinitialising, the observable graph (edge count, neighbour order of every vertex in both directions, adjacency queries, in-, out- and total degrees, directions) equals that of a plain model executed alongside. Undoing hides, contractions and identifications in reverse order gives back the earlier adjacency exactly, and a refused operation (capacity reached, bad argument) changes nothing.',
 ['histories', 'fault_sequences'],
 'For every finite history of editing calls within their documented preconditions, interleaved with failed allocations in the growing calls.',
 'No test calls these editing functions in sequences; vertex contraction, identification, insertion at a position, holes in the edge store and capacity growth are not exercised at all.',
 ['c/graphLib/graphUtils.c', 'c/graphLib/graphStructures.h', 'c/graphLib/lowLevelUtils/stack.c'],
 [('edge storage with recycled holes', 'graphUtils.c gp_AddEdge, gp_InsertEdge, gp_DeleteEdge'), ('undo stack', 'graphUtils.c gp_HideVertex, gp_IdentifyVertices, gp_RestoreVertex'), ('capacity growth', 'graphUtils.c gp_EnsureArcCapacity, gp_DynamicAddEdge')],
 'edge array, holes, adjacency lists, undo stack', 'adjacency iteration and degree/adjacency queries')

add('P05', 'Copies and duplicates are faithful and independent',
 'A duplicate, a whole-graph copy and an adjacency-list copy have the same edges, directions, neighbour order, vertex labels and embedding or drawing state (as far as the operation promises to copy it) as the source at that moment, including attached extensions and edge-store holes. Afterwards neither graph is affected by anything done to the other, including freeing it, running algorithms on it, or detaching its extensions.',
 ['histories', 'fault_sequences'],
 'For every history of two or more graph objects with copy operations in between, including into previously used destinations, destinations with larger capacity, and with allocation failures.',
 'Tests copy only a freshly read graph with at most one extension and then never edit, free or compare the source; aliasing shows only under particular lifetimes.',
 ['c/graphLib/graphUtils.c', 'c/graphLib/extensionSystem/graphExtensions.c'],
 [('deep copy', 'graphUtils.c gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists'), ('extension context duplication', 'graphExtensions.c gp_CopyExtensions; *_DupContext')],
 'graph objects and their extension contexts', 'adjacency iteration, algorithm results on either copy')

add('P06', 'Attached extensions never change what other operations do',
 'Attaching and detaching any algorithm extensions in any order and number keeps the graph, leaves the results of every other operation and algorithm unchanged, and makes exactly the attached algorithms available; attaching twice is a no-op, detaching restores the previous behaviour, and an attached extension is found until it is detached. A capacity increase that an attached extension cannot follow is refused with an error and leaves everything usable.',
 ['histories', 'fault_sequences'],
 'For every sequence of attach, detach, algorithm, edit, copy and reinitialise steps over one or more graphs, including failing allocations during attach.',
 'Tests attach one extension to one graph and never detach; overload chains of several extensions and removal from the middle of a chain are not executed.',
 ['c/graphLib/extensionSystem/graphExtensions.c', 'c/graphLib/extensionSystem/graphFunctionTable.h', 'c/graphLib/homeomorphSearch/graphK33Search_Extensions.c', 'c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c'],
 [('function-table overloading chain', 'graphExtensions.c gp_AddExtension, gp_RemoveExtension'), ('attach/detach entry points', '*_Extensions.c gp_Attach*, gp_Detach*')],
 'overload chain and contexts', 'algorithm results with and without extensions')

add('P07', 'A failed allocation fails the call and nothing else',
 'When any memory allocation inside a library call fails, the call returns its documented failure result or completes correctly; it never crashes, never touches freed memory, never reports success with missing or wrong effects, and leaks nothing once the objects are freed. The objects involved can still be freed, inputs of the call are unharmed, and repeating the work with memory available (on the same object where the call left it as it was, otherwise on a reset or fresh one) gives the same result as if the failure had not happened.',
 ['fault_sequences', 'crash_points', 'histories'],
 'For every position of one or more failing allocations in every call of every history of library operations.',
 'Tests never make an allocation fail, and every allocation site in every state of the object is a separate failure point.',
 ['c/graphLib/graphUtils.c', 'c/graphLib/extensionSystem/graphExtensions.c', 'c/graphLib/io/graphIO.c', 'c/graphLib/io/strbuf.c', 'c/graphLib/io/strOrFile.c', 'c/graphLib/io/g6-read-iterator.c', 'c/graphLib/io/g6-write-iterator.c', 'c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c', 'c/graphLib/homeomorphSearch/graphK33Search_Extensions.c', 'c/graphLib/homeomorphSearch/graphK4Search_Extensions.c'],
 [('allocation checks and unwinding', 'gp_New, gp_InitGraph, gp_EnsureArcCapacity, gp_DupGraph, gp_Attach*'), ('growable strings', 'strbuf.c')],
 'heap', 'return codes, heap state, later results')

add('P08', 'A successful read delivers exactly the stored graph',
 'Reading a graph (adjacency list, adjacency matrix, edge-list/LEDA or G6; from a file, standard input or a string) returns success only if the whole graph was obtained, and then the object has exactly the stored vertices, edges and directions. A missing, truncated, torn or malformed source, or an I/O error at any point, makes the call return failure in bounded time without crashing, and the object can still be freed; how the bytes are chunked by the device never matters. Repeated neighbours (and, in the LEDA format, loops) are documented omissions, not damage, so every graph delivered is simple.',
 ['inputs', 'fault_sequences', 'crash_points'],
 'For every graph, format, source kind, chunking, truncation point and I/O error position.',
 'Tests read a few intact sample files through a well-behaved file system; no truncation, device error or chunking variation is ever presented.',
 ['c/graphLib/io/graphIO.c', 'c/graphLib/io/g6-read-iterator.c', 'c/graphLib/io/strOrFile.c', 'c/graphLib/io/g6-api-utilities.c'],
 [('format detection and parsing', 'graphIO.c gp_Read, gp_ReadFromString'), ('G6 decoding', 'g6-read-iterator.c')],
 'input stream', 'return code and resulting graph')

add('P09', 'A reported write is complete and reads back equal',
 'Writing a graph or a drawing (adjacency list, adjacency matrix, G6, rendering; to a file, standard output or a string) returns success only if every byte was accepted by the device, and then reading the output back gives the same graph with the same neighbour order where the format keeps it; if the device refuses any byte, fails to flush or to close, or cannot be opened, the call returns failure. A failed or successful write never changes the graph, and the output of repeated writes is identical. Directed graphs are promised for the adjacency-list format only; the matrix format refuses them.',
 ['fault_sequences', 'crash_points', 'inputs'],
 'For every graph state, format, destination and position of a full disk, short write, write error, close error or allocation failure.',
 'Tests write to a healthy disk only and compare a handful of files; nothing observes what is reported when the device fails midway.',
 ['c/graphLib/io/graphIO.c', 'c/graphLib/io/g6-write-iterator.c', 'c/graphLib/io/strOrFile.c', 'c/graphLib/io/strbuf.c', 'c/graphLib/planarityRelated/graphDrawPlanar.c'],
 [('writers', 'graphIO.c gp_Write, gp_WriteToString'), ('rendering to file', 'graphDrawPlanar.c gp_DrawPlanar_RenderToFile')],
 'output stream', 'return code and bytes on the simulated disk')

add('P10', 'G6 iteration visits every graph of a stream exactly once, in order',
 'Iterating over a multi-graph G6 stream yields each stored graph exactly once, in order, with exactly its edges, counts them correctly, signals the end exactly at the end of the stream, and leaves an error (never a shortened success) if a line is damaged, has a different order, or the device fails; a G6 stream written graph by graph reads back as the same sequence. Ending and freeing an iterator at any moment is safe, and the same holds for string and file sources.',
 ['histories', 'fault_sequences', 'inputs'],
 'For every sequence of graphs of one order, header presence, chunking, end point, damage position and I/O or allocation failure.',
 'Tests iterate only over intact files produced by geng for 10 or fewer vertices, never write several graphs to one stream, and never end early or fail midway.',
 ['c/graphLib/io/g6-read-iterator.c', 'c/graphLib/io/g6-write-iterator.c', 'c/graphLib/io/g6-api-utilities.c', 'c/graphLib/io/strOrFile.c'],
 [('iterator life cycle', 'allocate/begin/read|write/end/free'), ('order and bit-vector encoding', '_encodeAdjMatAsG6, _decodeGraph')],
 'iterator position and buffers', 'sequence of graphs delivered, iterator return codes')

add('P11', 'Depth-first numbering and vertex reordering are consistent and reversible',
 'Creating the depth-first tree numbers the vertices 1..N consistently with a depth-first search of the graph (every non-tree edge joins an ancestor and a descendant, parents precede children), sorting by that numbering relabels vertices and edges consistently, sorting again restores the original labelling exactly, and least-ancestor and lowpoint values equal those computed from the definition. Repeating the steps, in any mixture with edits after reset and with copies, keeps this true.',
 ['histories', 'inputs'],
 'For every graph (including disconnected ones and directed edges) and every history of numbering, sorting, least-ancestor, lowpoint, copy and reset calls.',
 'No test calls these functions directly; they are only reached inside one embedding of a fresh graph.',
 ['c/graphLib/graphDFSUtils.c', 'c/graphLib/graphUtils.c'],
 [('DFS and sort', 'graphDFSUtils.c gp_CreateDFSTree, gp_SortVertices, gp_LeastAncestor, gp_LowpointAndLeastAncestor')],
 'vertex records, DFI/index, parent', 'adjacency, parent, index and lowpoint accessors')

add('P12', 'Interleaved callers on separate graphs do not affect each other',
 'Callers that work on separate graph objects at the same time (any interleaving of their library calls and of the steps inside those calls, including the first use of each extension) obtain exactly the results, outputs and memory behaviour each would obtain alone. Attaching, detaching, running, copying, reading and writing on one graph is never visible on another. (The C library random-number stream, which all callers of the random generators share by design, is excluded.)',
 ['schedules', 'histories', 'fault_sequences'],
 'For every interleaving, at basic-block granularity, of two or more callers with separate graphs, with allocation failures in some of them.',
 'All tests are single-threaded and use one graph pipeline at a time.',
 ['c/graphLib/extensionSystem/graphExtensions.c', 'c/graphLib/lowLevelUtils/apiutils.c', 'c/graphLib/graphUtils.c', 'c/graphLib/planarityRelated/graphEmbed.c'],
 [('module-level state', 'extension identifiers, quiet-mode flag, any static buffer'), ('reentrancy of all library calls', 'whole library')],
 'process-wide variables of the library', 'per-caller results')

add('P13', 'Random graph generation obeys its contract for every random stream',
 'For every sequence of random numbers, random graph generation yields, and, provided the source delivers varied numbers from some point on, terminates with, a simple graph whose edges lie among the N vertices: the plain generator a connected graph within the arc capacity, the sized generator exactly the requested number of edges when that fits (a maximal planar graph for 3N-6 edges, that graph plus extra edges beyond it); the object is consistent and immediately usable by every algorithm. The same random stream gives the same graph.',
 ['inputs', 'histories', 'fault_sequences'],
 'For every behaviour of the random source (including prefixes of any length that are constant, extreme or periodic), vertex count and edge count in range, and reuse of the object.',
 'The generators are not exercised by any test, and the C library generator would sample only one stream anyway.',
 ['c/graphLib/graphUtils.c', 'c/planarityApp/planarityRandomGraphs.c'],
 [('random tree plus random edges', 'graphUtils.c gp_CreateRandomGraph, gp_CreateRandomGraphEx, _GetRandomNumber')],
 'random source', 'resulting graph')

add('P14', 'The command-line program reports truthfully',
 'For every command line mode (single graph, all graphs of a stream, transformation, random graphs, self-test) the exit status, console verdict and output files agree with what actually happened: a success status is given only if the input was completely read, the stated verdict or tally is the true one for it, and every requested output was completely written; any failure to open, read, write, close or allocate gives an error status instead. The program always terminates, never crashes and never modifies files other than the ones it was asked to write.',
 ['fault_sequences', 'inputs', 'crash_points'],
 'For every command line in the documented syntax, input stream, clock behaviour, and position of file-system, stream and allocation faults.',
 'The tests run the program on a healthy file system with plentiful memory and inspect only a few documented runs.',
 ['c/planarityApp/planarityCommandLine.c', 'c/planarityApp/planaritySpecificGraph.c', 'c/planarityApp/planarityTestAllGraphs.c', 'c/planarityApp/planarityTransformGraph.c', 'c/planarityApp/planarityRandomGraphs.c', 'c/planarityApp/planarityUtils.c'],
 [('mode dispatch and result codes', 'planarityCommandLine.c commandLine'), ('result and tally output', 'planaritySpecificGraph.c, planarityTestAllGraphs.c')],
 'simulated file system, console, clock', 'exit status, stdout, output files')

add('P15', 'Interactive sessions follow the script and always end',
 'For every sequence of lines typed into the interactive menu (valid choices, unknown choices, unusable file names) the program performs the selected operations with the same results as the command line and returns to the menu, and it quits with success on the quit choice; when the input ends or fails at any prompt it terminates in a bounded number of steps instead of looping or using undefined answers.',
 ['histories', 'fault_sequences', 'crash_points'],
 'For every script of menu input, every point at which standard input ends or fails, and file-system faults underneath.',
 'No test runs the interactive menu.',
 ['c/planarityApp/planarityMenu.c', 'c/planarityApp/planarityUtils.c', 'c/planarityApp/planarityRandomGraphs.c', 'c/planarityApp/planaritySpecificGraph.c'],
 [('menu loop and prompts', 'planarityMenu.c menu, TransformGraphMenu, TestAllGraphsMenu; planarityUtils.c Reconfigure'), ('numeric prompts', 'planarityRandomGraphs.c GetNumberIfZero')],
 'menu configuration', 'console transcript, output files, exit status')

add('P16', 'Work stays proportional to the size of the graph',
 'The number of execution steps of every embedding, drawing, homeomorph search and obstruction isolation is bounded by a constant times the number of vertices plus edges, for every structure and every history of the object; in particular every call terminates within that bound, also when an allocation inside it fails or the object was used before.',
 ['inputs', 'histories', 'fault_sequences'],
 'For every graph family, size and object history, measured in deterministic simulated steps rather than wall time.',
 'Tests run tiny graphs and no test measures work; a superlinear path shows only on particular large structures.',
 ['c/graphLib/planarityRelated/graphEmbed.c', 'c/graphLib/homeomorphSearch/graphK33Search.c', 'c/graphLib/homeomorphSearch/graphK4Search.c', 'c/graphLib/planarityRelated/graphIsolator.c', 'c/graphLib/planarityRelated/graphDrawPlanar.c'],
 [('short-circuiting external face links and lazily processed lists', 'graphEmbed.c walkup/walkdown'), ('linear-time guards of the searches', 'graphK33Search.c, graphK4Search.c')],
 'step clock of the simulator', 'steps per call')

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

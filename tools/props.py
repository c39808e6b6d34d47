# Writes properties.jsonl and MANIFEST.json:  /opt/pvenv/bin/python tools/props.py
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},
      'why_tests_cant':why,'anchors':{'files':files,
      'mechanism':[{'name':n,'where':w} for n,w in mech],
      **({'observe_at':observe} if observe else {})}})
S='ababe/stru/'
p('C01','Site permutations of a cell are exactly its crystal symmetry group',
 'The set of site permutations a cell reports is exactly the set of permutations that the symmetry operations of the crystal (lattice, sites and species together) induce on its sites: each is a bijection, none is missing, none is added. The result does not depend on the order of the sites, on which periodic image of a site is given, or on the orientation of the lattice.',
 ['inputs'],'every lattice, every basis of sites (species may repeat, vacancies included), every supercell, every equivalent description of the same crystal; sites more than 0.1 A apart',
 'Tests compare permutation counts and closure on about five hand-made cells; a missing or foreign permutation only shows for particular combinations of lattice, coordinates near the cell edge and supercell shape.',
 [S+'scaffold.py'],[('GeneralCell.get_symmetry_permutation',S+'scaffold.py'),('GeneralCell.get_symmetry',S+'scaffold.py')])
p('C02','One-species substitution lists every inequivalent structure exactly once',
 'Substituting n sites of a cell by a species (over the whole cell, over one element, or over one Wyckoff letter) and removing duplicates yields exactly one structure of every symmetry class of such substitutions. Every structure produced has the lattice and sites of the parent, with exactly n of the chosen sites substituted and every other site untouched, and the parent itself is not modified.',
 ['inputs','configurations'],'every crystal, supercell, target (whole cell / element / Wyckoff letter), species not yet on those sites (vacancy included) and 0 <= n <= number of target sites',
 'Tests check a few counts; a lost or repeated class changes a count only for certain cells, targets and n.',
 [S+'sogen.py',S+'scaffold.py'],[('OccupyGenerator.gen_nodup*',S+'sogen.py'),('gen_2nodup_gen/_update_isoset',S+'sogen.py'),('GeneralCell.id',S+'scaffold.py')])
p('C03','Two-species substitution lists every inequivalent structure exactly once',
 'Substituting n1 sites by one species and n2 further sites by a second one (in the whole cell or among the sites of one element) and removing duplicates yields exactly one structure of every symmetry class of such substitutions. Exactly n1 and n2 of the target sites carry the two species in every structure, everything else is as in the parent.',
 ['inputs','configurations'],'every crystal, supercell, optional target element, two different species not in the cell (vacancy included), every n1, n2 >= 0 with n1+n2 at most the number of target sites',
 'Tests check one or two counts; unequal n1 and n2, a zero, or a full substitution are not reached.',
 [S+'sogen.py'],[('OccupyGenerator.gen_nodup_trinary_alloy',S+'sogen.py'),('OccupyGenerator._gen_dup_trinary_alloy',S+'sogen.py')])
p('C04','Level-by-level substitution is complete and irredundant at every level',
 'The level-by-level enumeration (whole cell, one element, one Wyckoff letter) up to n yields one generator per number of substituted sites, and the k-th of them lists exactly one structure of every symmetry class with that many substituted sites. This holds for every way of consuming the levels: in order, ahead, interleaved, partially or not at all.',
 ['inputs','schedules'],'every crystal, supercell, target and species; every n, up to one past the number of target sites; starting cells with 0 or 1 site already substituted; every interleaving of "next level" and "read one structure of level i"',
 'Tests read the levels in order and compare lengths on three cells; they never interleave readers.',
 [S+'sogen.py'],[('all_speckle_gen*',S+'sogen.py'),('itertools.tee of each level',S+'sogen.py')])
p('C05','Building blocks of the occupation enumeration are exact',
 'The raw enumerators yield every placement of n substituting atoms on the target sites exactly once; the one-more-site steps yield every structure obtained from an input structure by substituting exactly one more target site, each once. The duplicate filter keeps exactly the first representative of every symmetry class of any input sequence, and the equivalence test of two structures answers true exactly when a symmetry of the parent maps one onto the other.',
 ['inputs','histories'],'every crystal and target; every sequence of structures of the parent fed to the filter or to a step; every pair of occupations for the equivalence test',
 'Tests feed each building block a handful of sequences.',
 [S+'sogen.py'],[('gen_dup*',S+'sogen.py'),('gen_add_one_speckle*',S+'sogen.py'),('gen_2nodup_gen',S+'sogen.py'),('is_equivalent',S+'sogen.py')])
p('C06','C60 decorations: symmetry table and enumeration are exact',
 'The 120 site permutations of the buckyball are exactly the isometries of the shipped cage of 60 sites. Substituting n sites of the cage (raw, non-duplicate, or level by level, from the bare cage or from a decorated one) yields every placement, respectively exactly one structure of every class under those 120 permutations.',
 ['inputs','schedules'],'every n, substituting species (vacancy included), starting decoration and way of reading the levels',
 'Tests compare class counts for n <= 3; they never compare the table with the geometry.',
 [S+'buckyball.py'],[('Structure class and permutation table',S+'buckyball.py'),('filter of duplicates by hash',S+'buckyball.py')])
p('C07','Grid (CStru) speckle enumeration is complete and irredundant',
 'For a d x w x l grid of sites on a lattice, the raw speckle enumeration yields every placement of n speckles exactly once and the non-duplicate one yields exactly one placement of every class under the symmetries of the periodic grid. The equality test of two grid structures under given operations agrees with the geometry.',
 ['inputs','configurations'],'every lattice, grid shape, sea and speckle species and number of speckles',
 'Tests count structures for a few grids.',
 [S+'sogen.py',S+'scaffold.py'],[('gen_nodup_cstru',S+'sogen.py'),('get_permutation_cell',S+'sogen.py'),('CStru.gen_speckle',S+'scaffold.py'),('is_stru_equal',S+'sogen.py')])
p('C08','The disjunct test of a grid structure is exact across the periodic boundary',
 'A grid structure is called disjunct exactly when no two speckles, periodic images included, are within distance 1.01 of each other.',
 ['inputs'],'every placement of speckles on every grid shape of the documented lattices (bcc, fcc, scc, triflat) and lattices of like shape',
 'Tests look at about ten placements; wrap-around along each axis, edge and corner is not enumerated.',
 [S+'sogen.py'],[('is_speckle_disjunct/_pool_sites/_min_dist',S+'sogen.py')])
p('C09','Superlattice enumeration is complete and irredundant (3-D and layered)',
 'For every volume factor n the enumeration with duplicates lists every index-n sublattice exactly once (those that keep the third axis, for the layered variant), and the enumeration without duplicates lists exactly one sublattice of every class under the symmetry of the unit cell. Two superlattice cells of the same unit cell compare equal exactly when a symmetry of the crystal maps one sublattice onto the other.',
 ['inputs'],'every unit cell (lattice and basis) and every n >= 1; all pairs of sublattices of one index',
 'Tests compare counts for a few n of three cells.',
 [S+'grid.py'],[('SuperLatticeGenerator.hnfs_from_n / _dups',S+'grid.py'),('SuperLatticeGenerator2D',S+'grid.py'),('SuperLatticeCell.__eq__',S+'grid.py')])
p('C10','A supercell is the same crystal as its unit cell',
 'The supercell built from a unit cell and a scale matrix has the lattice scale x lattice and exactly the atoms of the infinite crystal that lie in it, each once and with its species. Neither the unit cell nor the scale matrix is modified, and both builders (supercell of a cell, cell of a superlattice) agree.',
 ['inputs'],'every crystal and every positive upper-triangular (Hermite form) integer matrix, diagonal ones included',
 'Tests build about five supercells.',
 [S+'scaffold.py',S+'grid.py'],[('GeneralCell.supercell/get_frac_from_mat',S+'scaffold.py'),('SuperLatticeCell.to_general_cell/get_frac_from_H',S+'grid.py')])
p('C11','Primitivity, refined, primitive and shaped cells describe the same crystal',
 'A cell is called primitive exactly when no pure translation other than a lattice vector maps it onto itself. The refined cell, the refined primitive cell and the shaped cell describe the same infinite crystal (up to rotation and translation, not reflection); the primitive one has as few atoms as possible, the shaped one as many as the original, and the original is not modified.',
 ['inputs'],'every crystal (vacancies count as a species), every supercell and substitution of it, every description, left-handed lattices included',
 'Tests check a few atom counts.',
 [S+'scaffold.py'],[('is_primitive',S+'scaffold.py'),('get_refined_cell/get_refined_pcell/get_shaped_cell',S+'scaffold.py')])
p('C12','Minimal-distance restriction is exact for periodic crystals',
 'The restriction (element, d) accepts a structure exactly when every distance between two atoms of that element, including periodic images and an atom and its own images, is larger than d. A structure without such an atom is accepted.',
 ['inputs'],'every lattice (skewed ones included), basis, element and threshold, thresholds beyond the cell length included',
 'Tests use two structures and two thresholds.',
 [S+'restriction.py'],[('MinDistanceRestriction.is_satisfied',S+'restriction.py')])
p('C13','Space group report and restriction are exact for all 230 types',
 'The reported space group carries the number of the space-group type of the crystal, and the space-group restriction accepts a structure exactly when that number is in its list. Neither depends on the description of the crystal.',
 ['inputs'],'every space-group type 1..230 and every list of numbers',
 'Tests look at two crystals and short lists.',
 [S+'restriction.py',S+'scaffold.py'],[('SpaceGroupRestriction.is_satisfied',S+'restriction.py'),('GeneralCell.get_spacegroup',S+'scaffold.py')])
p('C14','POSCAR files: written and read structures are the same crystal',
 'A POSCAR written from a cell (direct or cartesian, by either writer) is a valid VASP-5 file whose comment is the formula and whose lattice, species, counts and coordinates describe exactly the atoms of the cell, vacancies left out, to six decimals. Reading any valid VASP-5 file gives the crystal it describes (coordinates to four decimals), for positive and negative scale lines, direct and cartesian coordinates, repeated species blocks, any blanks, an empty comment line, selective dynamics, and velocities after the coordinates (flags and velocities left out).',
 ['inputs','configurations'],'every crystal, species and zoom written; every combination of scale line, coordinate mode, species layout and spacing read',
 'Tests compare two files literally.',
 ['ababe/io/vasp.py',S+'io.py'],[('VaspOutput/VaspInput','ababe/io/vasp.py'),('VaspPOSCAR',S+'io.py')])
p('C15','YAML files round-trip, and the file format follows the request',
 'A YAML file written from a cell (by either writer) holds its lattice, positions (to six decimals) and numbers, vacancies included, the zoom, and the formula as comment; reading any YAML structure gives lattice times zoom and positions (each to four decimals) and the numbers. Reading and writing through the general interface uses the format asked for, else the one the file name tells (.vasp, POSCAR..., .yaml), and standard output when there is no file name.',
 ['inputs','configurations'],'every crystal, zoom and YAML style; every combination of file name, directory and requested format',
 'Tests read one file and write one string.',
 ['ababe/io/yaml.py','ababe/io/io.py',S+'io.py'],[('YamlInput/YamlOutput','ababe/io/yaml.py'),('YamlOutput',S+'io.py'),('GeneralIO.from_file/write_file','ababe/io/io.py')])
p('C16','A modifiable cell is the sequence of sites its edit history describes',
 'After any history of appends, inserts, assignments, deletions, removals by index or index list, extensions and pops, a modifiable cell has exactly the sites, in the order, that the same history gives on a list; length, iteration, indexing, positions, numbers and conversion to a cell agree with it. A copy, the cell it was made from, and the converted cell never change with it; two of them are equal exactly when lattice, positions and species agree site by site.',
 ['histories'],'every sequence of edits with valid indices',
 'Tests apply single edits.',
 [S+'scaffold.py',S+'site.py'],[('ModifiedCell edit methods, copy, __eq__, from_gcell, to_gcell',S+'scaffold.py')])
p('C17','Sphere query and atom removal see every periodic image',
 'The sphere query returns exactly the sites of the cell (optionally of one element) that have a periodic image closer than r to the given fractional centre, with their indices. The removing clarifiers delete exactly the sites of the given element (of any, if none is given) closer than r to one of the given points, respectively to any atom of the centre element as they were before the removal, and reject anything that is not a modifiable cell.',
 ['inputs'],'every lattice, basis, centre (inside or outside the cell), radius (beyond the cell length included), element filter and list of centres',
 'Tests use two structures and three radii.',
 [S+'scaffold.py',S+'clarifier.py'],[('get_points_incell_insphere/in_euclidean_discance',S+'scaffold.py'),('AtomRemoveClarifier/VerboseAtomRemoveClarifier',S+'clarifier.py')])
p('C18','Perturbation and translation move sites by exact Cartesian displacements',
 'Perturbing a modifiable cell moves every site by exactly the given Cartesian distance (0.2 by default), along its own random vector, whatever the random draws, zero vectors included; lattice, species and order are kept. Translating one site moves that site, and no other, by the given Cartesian vector.',
 ['inputs','schedules'],'every lattice, distance and sequence of random draws; every sequence of translations',
 'Tests cannot force random draws and look at a cubic cell.',
 [S+'scaffold.py'],[('ModifiedCell.perturb/translate_sites',S+'scaffold.py')])
p('C19','Element table, species and sites agree with the periodic table',
 'For every element of the table (H to Ba, Hf to Ra, and the vacancy G = 0) symbol, number, name and mass agree with each other and with the periodic table through every constructor; any other symbol or number is rejected, never taken for another element. Species are equal exactly when they are the same element, and sites exactly when position and element agree.',
 ['inputs'],'every symbol and number, every pair of species and of sites',
 'Tests look at three elements.',
 [S+'element.py',S+'site.py',S+'pt.json'],[('Specie/GhostSpecie',S+'element.py'),('Site',S+'site.py')])
p('C20','Grids of sites and the cells they stand for are faithful',
 'A grid of species built from an array, a sea or a random fill shows exactly those species through indexing, arrays, sizes and equality; writing one site changes that site only, and a deep copy is independent of its source. The cell of a grid structure has lattice rows times (depth, width, length), and the site at grid index (i,j,k) at fraction (i/d, j/w, k/l) with its species. The named lattices (scc, bcc, fcc, triflat) are the ones their names tell.',
 ['inputs','histories'],'every grid shape, colouring, lattice and sequence of writes and copies; 2-D grids likewise',
 'Tests look at a few arrays and never at a copy after a write.',
 [S+'scaffold.py',S+'scaffold2d.py'],[('SitesGrid, CStru.get_cell/get_gcell/get_midpoint',S+'scaffold.py'),('SitesGrid2d, CStru2d',S+'scaffold2d.py'),('lat_dict',S+'sogen.py')])
p('C21','The random-pop set is a set under every history and every draw',
 'After any sequence of add, push, discard, random pop and the inherited set operations, the container holds exactly the members a mathematical set would: size, membership and iteration agree, no member twice. A random pop removes and returns one member, get_random returns one member and removes nothing, every member can be drawn, and on an empty set both return None and change nothing.',
 ['histories','schedules'],'every sequence of operations over hashable items, every random draw',
 'Tests run one short history with free draws.',
 ['ababe/mlearn/dsutils.py'],[('RandomPopSet','ababe/mlearn/dsutils.py')])
p('C22','Random arrangements are connected, distinct and can reach everything',
 'A random walk arrangement of n positions from a start consists of n distinct positions of the structure that contain the start and grow connected: each new one is a neighbour of an earlier one. Every such connected set is produced by some sequence of draws. A problem that leaves one of its three questions unanswered stops the program with an error status, naming the method.',
 ['inputs','schedules'],'every symmetric neighbour relation, start, n up to the number of reachable positions, and every sequence of random draws',
 'Tests run the walk a few times with free draws.',
 ['ababe/mlearn/arrange.py','ababe/mlearn/arrangeAgent.py'],[('random_walk_arrange','ababe/mlearn/arrange.py'),('arrangement problem classes','ababe/mlearn/arrangeAgent.py')])
p('C23','Neighbours within a distance on 2-D and 3-D grids are exact',
 'The neighbours of a grid site within a cut-off are exactly the other sites of the finite grid whose Cartesian distance is at most the cut-off, as grid indices; the site itself is never among them.',
 ['inputs'],'every lattice, grid shape (different sizes per axis, a single site), site and cut-off (none to all neighbours)',
 'Tests use one site of three grids.',
 [S+'scaffold.py',S+'scaffold2d.py'],[('CStru.get_neighbors',S+'scaffold.py'),('CStru2d.get_neighbors',S+'scaffold2d.py')])
p('C24','Monte Carlo tree search keeps exact statistics and plays the most visited move',
 'Every playout follows the child of largest Q + u from the root, expands a node once with the policy priors, and adds its leaf value, (1-lambda) value + lambda rollout result, to every node on its path: visit counts, Q as the average of the leaf values and u = c_puct P sqrt(parent visits)/(1+visits) stay exact. The move returned is one of largest visit count; stepping to a move keeps exactly its subtree, an unknown move starts afresh, and the given state is not modified.',
 ['inputs','histories'],'every finite two-player game, prior, value and rollout function, lambda, exploration constant, playout depth, number of playouts and rollout limit, and every sequence of searches and moves',
 'Tests look at one expanded node and one search.',
 ['ababe/mlearn/mcts.py'],[('TreeNode.select/expand/update/update_recursive','ababe/mlearn/mcts.py'),('MCTS._playout/_evaluate_rollout/get_move/update_with_move','ababe/mlearn/mcts.py')])
p('C25','runaba ocumaker and ocubiter write exactly the inequivalent structures',
 'ocumaker writes, for every number of substituted sites 1..n, one file of every inequivalent primitive substitution of the target element that satisfies all distance restrictions; ocubiter does so for exactly n, non-primitive ones too with -N. Every file is a valid structure in the format asked for (refined to a primitive cell unless --no-refined), in one directory STRUCTURES_<comment>_<suffix>, and its name starts with STRUCTURE_<formula>_; no file overwrites another whatever the random suffixes, and no other file is touched.',
 ['inputs','configurations','schedules'],'every input file, target element, speckle (vacancy by default), number, set of -r options, refined or not, -S/-N, output mode and sequence of random suffixes; input coordinates exact to four decimals',
 'No test runs the commands.',
 ['ababe/cmdline/runabalib.py','ababe/cmdline/apps/occupymaker.py','ababe/cmdline/apps/occupybiter.py'],[('App.run','ababe/cmdline/apps/occupymaker.py'),('App.run','ababe/cmdline/apps/occupybiter.py')])
p('C26','runaba ocutenter and ocumakert write exactly the inequivalent ternary structures',
 'ocutenter writes one file of every inequivalent substitution of n1 and n2 target-element sites by the two speckles that satisfies all distance restrictions and (unless -N) is primitive; ocumakert does so for all n1, n2 >= 1 that leave at least one target atom, primitive structures only. The zoom is the option, else the one in the settings file, else 1; every file is valid in the format asked for, its name tells the numbers of remaining, first and second atoms (A..B..C..), none overwrites another, and no other file is touched.',
 ['inputs','configurations','schedules'],'every settings file, target element, pair of speckles, numbers, -r options, zoom, refined or not, -S/-N, output mode',
 'No test runs the commands.',
 ['ababe/cmdline/runabalib.py','ababe/cmdline/apps/occupytenter.py','ababe/cmdline/apps/occupymakert.py'],[('App.run','ababe/cmdline/apps/occupytenter.py'),('App.run','ababe/cmdline/apps/occupymakert.py')])
p('C27','runaba suplat writes exactly the inequivalent superlattices',
 'suplat writes, into the directory SUPLAT_<comment> (emptied first), one file per inequivalent superlattice of the requested volume, 3-D or layered (-L), each a supercell of the input crystal in the format asked for, named SUPLAT_<volume>_<suffix>; no file overwrites another whatever the random suffixes. A non-primitive input is rejected with no file touched.',
 ['inputs','configurations','schedules'],'every primitive input crystal, volume, -L, comment, output mode, sequence of random suffixes and order of runs; every non-primitive input',
 'No test runs the command.',
 ['ababe/cmdline/runabalib.py','ababe/cmdline/apps/superlattice.py'],[('App.run','ababe/cmdline/apps/superlattice.py')])
p('C28','The runati commands write the crystal they promise',
 'supcell writes the a x b x c supercell of the input, pcell a primitive cell of the same crystal, atclear the input without the atoms of one element closer than the radius to an atom of the centre element (as a refined primitive cell unless --no-refined), perturb the input with every atom moved by exactly the radius. The result goes to <input name up to its first dot>_SUPC, _PRIMC, _ACLR or _PURB in the current directory in the format asked for, or to standard output as a POSCAR, and the input is not changed.',
 ['inputs','configurations','schedules'],'every input file (POSCAR or YAML, any directory), option combination and random draw; input coordinates exact to four decimals; at least one atom left',
 'No test runs the commands.',
 ['ababe/cmdline/runatilib.py','ababe/cmdline/apps/atomclarifier.py','ababe/cmdline/apps/atomperturb.py'],[('supcell, pcell','ababe/cmdline/runatilib.py'),('App.run','ababe/cmdline/apps/atomclarifier.py'),('App.run','ababe/cmdline/apps/atomperturb.py')])
p('C29','A cell shows the same sites for every description, and its views agree',
 'A cell holds exactly the lattice, sites and species it was given; the sequence of its sites and its identity number are the same for every order of the sites and every choice of their periodic images, and different occupations of the same sites have different identities. Cartesian coordinates (of all atoms or one element), atom counts, formula and the cell used for symmetry always agree with the current sites and numbers, also after the numbers are reassigned, and the arrays given are never modified.',
 ['inputs','histories'],'every crystal, site order, choice of images and sequence of reassignments of the numbers',
 'Tests look at one order and never reassign numbers.',
 [S+'scaffold.py'],[('GeneralCell.__init__/_get_new_id_seq, numbers setter, id, comment, get_cartesian, get_speckle_num',S+'scaffold.py')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
M={'version':1,'setup_cmd':'true','checks':[],'not_applicable':[]}
T={'C04':'exhaustive input and reader-schedule enumeration vs exact orbit model','C16':'exhaustive edit-history exploration vs list model','C18':'stateless exploration of all random-draw sequences vs exact displacement model',
'C21':'exhaustive operation-history and draw exploration vs set model','C22':'stateless exploration of all random-draw sequences vs connected-subset model','C24':'exhaustive game/parameter enumeration vs reference search model',
'C25':'exhaustive command/option/suffix-draw enumeration vs exact orbit model','C26':'exhaustive command/option enumeration vs exact orbit model','C27':'exhaustive command/suffix-draw enumeration vs exact sublattice model','C28':'exhaustive command/option/draw enumeration vs exact crystal model',
'C29':'exhaustive description and reassignment-history enumeration vs exact crystal model'}
import sys; sys.path.insert(0,'/verif')
import importlib
for x in P:
    c=x['id']
    m=importlib.import_module('vmc.checks.'+c.lower())
    r=m.RULE['quick'] if isinstance(m.RULE,dict) else m.RULE
    M['checks'].append({'property':c,'quick_cmd':'./run.sh %s quick'%c,'thorough_cmd':'./run.sh %s thorough'%c,
     'technique':'model checking: '+T.get(c,'bounded exhaustive input enumeration of the real code vs exact reference model'),
     'level':'model_checking','level_note':'Every behaviour within the bounds is executed on the real code and compared with an independent reference model. Quick bounds: '+r+'. Assumes: '+'; '.join(m.ASSUMPTIONS)+'.'})
with open('/verif/MANIFEST.json','w') as f:
    json.dump(M,f,indent=1); f.write('\n')

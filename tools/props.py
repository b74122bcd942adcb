prop("C01", "Shape functions are a consistent partition of unity",
     "For any particle whose whole stencil lies inside the grid, the interpolation weights are non-negative and sum to one, reproduce linear fields exactly, and have zero first moment and the correct second moment. Their gradients sum to zero, reproduce the identity on linear fields and are the exact spatial derivative of the weights, for the linear, quadratic and cubic kernels in two and three dimensions.",
     ["inputs", "configurations"], "every particle position with full support, every grid origin, cell size and grid size, every kernel, 2D and 3D, any number of particles",
     "Positions are a continuum with kinks at cell boundaries; no existing test evaluates a shape function at all.",
     [SH + "linear.py", SH + "quadratic.py", SH + "cubic.py", SH + "mapping.py"],
     [("kernel polynomials", SH + "cubic.py, quadratic.py, linear.py"), ("stencil construction and evaluation per interaction", SH + "mapping.py compute")])
prop("C02", "Particle-node connectivity addresses the right grid nodes",
     "Every particle-node interaction addresses an existing node of the grid, and whenever its weight or gradient is non-zero that node is the one at the distance the interaction reports; stencil nodes outside the grid receive nothing, for particles anywhere, including outside the grid. Generic scatter and gather over these interactions conserve the scattered total, average with the interpolation weights and reproduce constants, and one particle's interactions do not depend on the other particles.",
     ["inputs", "configurations"], "every particle position (inside, on the border of or outside the grid), every grid shape, every kernel, any particle count, scalar/vector/tensor payloads",
     "Row-major hashing, clipping and border masking fail only for particular positions and non-square grids; the tests never build a connectivity.",
     [SH + "mapping.py", "hydraxmpm/grid/grid.py"],
     [("node hashing, border masking, stencil", SH + "mapping.py compute"), ("node coordinates", "hydraxmpm/grid/grid.py position_mesh"), ("scatter and gather", SH + "mapping.py scatter_to_grid, gather_from_grid")])
prop("C03", "Particle-to-grid transfer conserves mass, momentum and force",
     "In every step the grid receives exactly the total mass, linear momentum and external force of the particles of all bodies coupled to it, node by node with the interpolation weights (plus the affine correction in the affine scheme), and internal stresses add zero net force. The grid momentum then advances by exactly force times time step.",
     ["inputs", "configurations"], "any particle states, stresses and volumes, any interaction weights satisfying the C01 contract, any number of particles and nodes, one or two bodies per grid, both schemes, 2D and 3D",
     "Conservation is a sum over all particles and nodes for arbitrary states; the tests only construct states.",
     [S + "usl.py", S + "usl_asflip.py", "hydraxmpm/grid/grid.py"],
     [("particle-to-grid scatter", S + "usl.py _p2g; " + S + "usl_asflip.py _p2g"), ("explicit grid integration", S + "usl.py _integrate_grid")])
prop("C04", "Grid-to-particle update integrates motion and deformation consistently",
     "After every step each particle's velocity is the configured blend of the interpolated and the incremented velocity, its position moves with the interpolated velocity (plus the bounded separation correction in the affine scheme), its velocity gradient is the negative (compression-positive) interpolated gradient, its deformation gradient is advanced by that gradient, and its volume equals the determinant of the deformation gradient times the reference volume. In two dimensions the out-of-plane stretch stays one; mass, reference volume, stress and array shapes are untouched; time and step count advance.",
     ["inputs", "configurations"], "any grid fields (including empty nodes), particle states, time steps, blend factors, any particle count including one, both schemes, 2D and 3D, with and without the accumulated deformation record",
     "Index order, sign and blend errors compile, keep shapes and are invisible to tests that never advance a step.",
     [S + "usl.py", S + "usl_asflip.py"], [("grid-to-particle gather and kinematic update", S + "usl.py _g2p; " + S + "usl_asflip.py _g2p")])
prop("C05", "Affine velocity fields and rigid translations are transported exactly",
     "If the grid carries an affine velocity field, every particle with full support recovers exactly its velocity gradient, spin and position advance, in both the gradient-based and (for the quadratic and cubic kernels) the moment-based affine update. If all particles share one velocity the grid momentum is that velocity times grid mass at every node, and particles carrying an affine field transfer exactly that field to the grid in the affine scheme.",
     ["inputs", "configurations"], "any affine field, any particle positions and weights satisfying the C01/C02 contracts, any masses, blend factors and time steps, both schemes, 2D and 3D",
     "Exactness on linear fields is the consistency guarantee of the method and quantifies over all fields and positions.",
     [S + "usl.py", S + "usl_asflip.py", SH + "mapping.py"], [("gather of velocity gradients, affine matrix", S + "usl.py _g2p; " + S + "usl_asflip.py _g2p, _p2g")])
prop("C06", "A whole time step conserves total linear momentum up to external forces",
     "Over one full step, with unit blend of the interpolated velocity increment or without it, the change of total particle momentum equals the time step times the total external nodal and particle force: internal stresses, for any constitutive state, and the particle-grid-particle round trip create or destroy none.",
     ["inputs", "configurations"], "any particle states and stresses, any interaction weights satisfying the C01/C02 contracts, any blend factor, any number of particles and nodes, one or two bodies, both schemes, 2D and 3D",
     "The balance is a double sum over particles and nodes coupling every stage of the step; no test advances a step.",
     [S + "usl.py", S + "usl_asflip.py", SH + "mapping.py"],
     [("whole step composition", "hydraxmpm/solvers/solver.py, " + S + "usl.py, " + S + "usl_asflip.py update")])
prop("C07", "A step touches only what it is configured for and runs its stages in order",
     "A coupled body evolves in a step exactly as if it were alone with its own grid, constitutive law and solver state, at whatever positions bodies, grids, laws, solver states and couplings are listed; bodies sharing a grid give the same result in any listing order. Uncoupled bodies and rigid bodies are unchanged, bodies excluded from the transfer keep motion and stress, laws and solver states without coupling keep their state. Forces and velocity gradients left over from earlier steps have no influence. The constitutive law runs last, on the moved particle with its previous stress, its own history and the step size, and exactly its result is stored. A rigid object no force refers to only moves along its own kinematics.",
     ["inputs", "configurations"], "any particle, history and grid states, any interaction weights, any law whose update depends on everything it is given, several bodies on one or two grids with permuted indices, both schemes, 2D and 3D",
     "Index mix-ups and stale state need several bodies with different indices and at least one whole step; no test builds either.",
     [S + "usl.py", S + "usl_asflip.py", S + "solver.py", S + "coupling.py", "hydraxmpm/common/simstate.py"],
     [("step composition, resets, caches", S + "usl.py update and its stages"), ("affine stages", S + "usl_asflip.py _p2g, _g2p"), ("indices", S + "coupling.py BodyCoupling")])
prop("C08", "The affine scheme's blending and speed limits hold for every particle",
     "With dynamic blending the share of the velocity increment grows linearly from zero to the configured factor as the supporting grid mass relative to the particle mass crosses the two configured bounds: isolated particles get the interpolated velocity, well supported ones the configured blend. After every step no particle moves faster than the configured fraction of a cell per step; the clamp shortens the velocity, never turns or lengthens it. The position correction uses the configured factor for compression or expansion and is independent of the clamp.",
     ["inputs", "configurations"], "any grid and particle states (including empty nodes), any support bounds, speed limit, blend factors, cell size and time step, any number of particles and nodes, 2D and 3D",
     "The limits are nonlinear in the state and only act on fast or isolated particles, which no test contains.",
     [S + "usl_asflip.py"], [("dynamic blend, speed clamp, position correction", S + "usl_asflip.py _g2p")])
prop("C09", "Gravity and local damping apply exactly the documented nodal and particle forces",
     "Gravity adds exactly mass times the gravity vector to every listed body or grid and to nothing else, so the momentum of a body grows by total mass times gravity times the time step on either route. Local damping has magnitude alpha times the force, always opposes the motion, does no positive work, never reverses the force for alpha up to one, and vanishes at rest.",
     ["inputs", "configurations"], "any particle and grid states, any gravity vector and damping factor, any number of particles and nodes, two bodies on two grids, both schemes, 2D and 3D, any listed subset",
     "Force indices, signs and double counting show only in multi-body states that no test builds.",
     [F + "gravity.py", F + "damping.py", S + "usl.py", S + "usl_asflip.py"],
     [("gravity on particles or grid", F + "gravity.py apply_pre_p2g, apply_grid_forces"), ("Cundall damping", F + "damping.py apply_pre_p2g, apply_grid_forces")])
prop("C10", "Rigid colliders enforce non-penetration with Coulomb friction",
     "At every grid node within one cell of a rigid object the momentum after contact never moves into the object relative to the wall; nodes that separate, and nodes further away, keep their momentum. Friction only shortens the tangential slip, never reverses it, and is bounded by the friction coefficient times the normal impulse; with zero friction the slip is untouched. Masses, other grids and empty nodes are unchanged.",
     ["inputs", "configurations"], "any signed distances, unit normals, wall velocities, friction fields, grid momenta and masses, any number of nodes, several objects and grids, both schemes, 2D and 3D",
     "Contact is a case distinction over a continuum of approach directions and magnitudes; no test exercises a collider.",
     [F + "sdf_collider.py", S + "usl.py", S + "usl_asflip.py"],
     [("node contact law", F + "sdf_collider.py apply_frictional_contact, _collide_node"), ("per-node geometry", S + "usl.py _get_nodes_sdfs")])
prop("C11", "Signed distance objects report true geometry and move rigidly",
     "For every shape the reported signed distance is the Euclidean distance to the surface (negative inside, up to the 1e-6 smoothing), whatever the position, rotation and size of the object: world distances and normals are the local ones carried along by the rigid motion. Normals have at most unit length and point away from the closest surface point; the wall velocity is the velocity of the rigid motion that the kinematic update integrates, unit quaternions stay unit, and containers, unions and per-surface friction pick the closest wall or member. A cloud of material points is bounded by the balls that hold the reference volumes; sampled distance grids are trilinear between their samples, scaled and thickened.",
     ["inputs", "configurations"], "every query point, object position, angle or unit quaternion, linear and angular velocity, shape parameter, time step, 2D and 3D, any number of query points",
     "Distances are piecewise with corners, edges and rotations; no existing test evaluates a signed distance.",
     ["hydraxmpm/sdf/sdfobject.py", "hydraxmpm/sdf/sdfcollection.py", "hydraxmpm/sdf/gridsdf.py", U + "math_helpers.py"],
     [("local distances", "hydraxmpm/sdf/sdfcollection.py signed_distance_local"), ("world frame, normals, velocities, kinematics", "hydraxmpm/sdf/sdfobject.py"), ("quaternions", U + "math_helpers.py quaternion_rotate, integrate_quaternion")])
prop("C12", "Linear elasticity, critical time steps and the shear reset obey their closed forms",
     "The linear elastic stress increment is the isotropic Hooke law of the symmetric strain increment: increments of one gradient add up, reversing a gradient restores the stress, rigid spin creates none, and the initial state reproduces the given reference. For every law that provides one, the critical time step is positive and keeps the Courant number of every particle, elastic wave speed plus particle speed, within the safety factor. Resetting accumulated shear keeps the determinant of the deformation gradient and makes it isotropic (in plane for plane strain). A law changes nothing but stress and its own state.",
     ["inputs", "configurations"], "every velocity gradient, stress and density, all admissible elastic constants, every time step, any number of particles including one, 2D and 3D",
     "The two elastic tests sample one gradient each; no test evaluates a critical time step or a reset.",
     [C + "linearelastic.py", C + "constitutive_law.py", C + "newtonfluid.py", C + "mu_i_rheology.py", C + "druckerprager.py"],
     [("stress increment", C + "linearelastic.py update"), ("critical time step", "get_dt_crit of every law"), ("reset of accumulated shear", C + "constitutive_law.py remove_accumulated_shear")])
prop("C13", "Fluid laws give admissible pressures and dissipate",
     "The Newtonian fluid and the mu(I) granular fluid never pull: pressure is non-negative, follows the documented equation of state in compression and vanishes when the material is expanded. Their deviatoric stress is along the deviatoric strain rate with a non-negative viscosity (2 mu for the fluid; for mu(I) the shear stress is mu(I) times pressure with the regularised static part, mu(I) within its two limits), so shear always dissipates; disconnected granular material is stress free. States created from points, from density or from pressure reproduce that pressure at rest. Nothing but the stress changes.",
     ["inputs", "configurations"], "every velocity gradient, density, reference density, pressure and material constants in their admissible ranges, any number of particles",
     "Sign and factor errors compile and keep shapes; the fluid tests sample one compressed state.",
     [C + "newtonfluid.py", C + "mu_i_rheology.py", U + "math_helpers.py"],
     [("equation of state and viscous stress", C + "newtonfluid.py update"), ("rheology", C + "mu_i_rheology.py update"), ("initial states", "create_state, create_state_from_density")])
prop("C14", "Drucker-Prager plasticity returns every stress to the yield surface",
     "After every update of a connected particle the stress satisfies sqrt(J2) <= mu_1 p + mu_2 c for the updated cohesion, with equality after plastic flow. Admissible trial states stay elastic and follow Hooke's law; returns to the cone keep the direction of the deviator, follow the dilation angle and hardening rule with a non-negative multiplier, otherwise the stress goes to the apex. Accumulated plastic strain never decreases, stress and stored elastic strain stay consistent, the stored strain and an initial stress rotate with a rigidly rotating body, and an admissible initial stress is reproduced. Particles looser than the reference density are stress free.",
     ["inputs", "configurations"], "every velocity gradient, elastic strain, accumulated plastic strain, pressure, density, time step and material constants (K >= 1e-3, mu_1 > 1e-3), any number of particles",
     "The return has four regimes selected by the trial state; no test updates a Drucker-Prager material at all.",
     [C + "druckerprager.py", U + "math_helpers.py"],
     [("elastic predictor and return mapping", C + "druckerprager.py _update_stress"), ("initial state", C + "druckerprager.py create_state")])
prop("C15", "Modified Cam Clay follows its swelling lines, yield surface and flow rule",
     "Normal consolidation, swelling and critical state lines, yield ratio and incremental pressure laws agree with each other; states created from over-consolidation ratio, from a stress on the yield surface or from density lie on the swelling line of their consolidation pressure, inside or on the yield surface, and reproduce the given pressure and shear. An update whose predictor is inside the yield surface is elastic: pressure grows exponentially with volumetric strain over kappa and consolidation is unchanged. A plastic update splits the volumetric strain exactly into swelling and consolidation, keeps the direction of the deviator while shortening it, keeps pressures positive and the stored elastic strain consistent with the stress, and for strain increments well below kappa ends on the yield surface with associated flow. Spin rotates stress and stored strain only; material looser than the reference volume is stress free.",
     ["inputs", "configurations"], "every predictor deviator, strain increment, consolidation pressure, stored strain, reference stress, density and material constants with pressures of at least p_min_calc, any number of particles; any outcome of the Newton iterations except for the last clause, which is a bounded check on sampled states (strain increments up to about 0.03 kappa)",
     "The element tests compare one path with a tolerance; the return mapping, its elastic limit, spin and the three initialisations are reached for a handful of states only.",
     [C + "modifiedcamclay.py", U + "math_helpers.py"],
     [("lines and stiffness", C + "modifiedcamclay.py yield_function, get_pressure_mcc, get_K, get_G, get_v_ncl, get_v_sl, get_v_csl, get_qp_ys"), ("initial states", C + "modifiedcamclay.py create_state_from_ocr, create_state_from_stress, create_state_from_density"), ("return mapping", C + "modifiedcamclay.py _update_stress")])
prop("C16", "Stress, strain and state measures agree with their definitions",
     "Pressure, deviator, J2, von Mises and shear measures of stress and strain, Hencky strain, void ratio / volume fraction / density conversions, the inertial number and the stress built from (p, q) follow their definitions with compression positive: invariants do not depend on the frame, pressure and shear measures do not mix, conversions invert each other, and single-tensor, stacked and batched spellings agree. The measures read off a set of material points are those of its own stress, gradient and deformation, and created points carry the given arrays with documented defaults (mass, volume, density consistent).",
     ["inputs", "configurations"], "every tensor, any stack sizes, admissible void ratios, fractions and densities; any number of points, 2D and 3D (the logarithm of the full deformation gradient and the slope angle are bounded numerical comparisons)",
     "Factor and sign errors in one of two dozen helpers compile and keep shapes; two of them crashed unnoticed.",
     [U + "math_helpers.py", "hydraxmpm/material_points/material_points.py"],
     [("invariants and strain measures", U + "math_helpers.py get_pressure .. get_shear_strain_vm"), ("conversions", U + "math_helpers.py e_to_phi, phi_to_e, get_phi_from_L"), ("point measures and creation", "hydraxmpm/material_points/material_points.py")])
prop("C17", "Element tests follow the prescribed path and stress control",
     "A driver step updates the deformation gradient with the prescribed velocity gradient (exponential map, or its linearisation when selected on the driver or the call), sets the volume to det F times the reference volume, gives the law the new gradient and deformation, and changes nothing else. A triaxial run is exactly that recursion for every number of steps: the axial rate is the prescribed one, lateral rates are equal, undrained steps keep the volume, snapshots follow the stride and the static start, per-step rates and time steps are used at their own step and the reported axial strain matches the snapshots. Drained runs hold the confining stress, or mean pressure, on target.",
     ["inputs", "configurations", "histories"], "every initial state, gradient, rate, time step, confinement and any number of steps for an arbitrary law; the stress target is proved for laws of linear response and a bounded check for Modified Cam Clay",
     "Off-by-one errors in snapshots, strides or per-step arrays and errors of the stress control need whole trajectories; no test runs one.",
     ["hydraxmpm/element_tests/driver.py", "hydraxmpm/element_tests/triaxial_test.py"],
     [("driver step", "hydraxmpm/element_tests/driver.py step"), ("trajectory, stress control, strain", "hydraxmpm/element_tests/triaxial_test.py run, axial_strain_stack")])
prop("C18", "Body contact on the grid removes approach and exchanges opposite momentum",
     "At every grid node where the receiving body touches the actor (signed distance at most 1e-6) and approaches it along the actor's unit normal, contact removes exactly the normal velocity relative to the actor and keeps the tangential velocity without friction (with friction, Coulomb's law with the configured coefficient); nodes apart or separating keep their momenta. A rigid actor is never changed, a deformable one receives the opposite momentum, and the bodies are never pulled together. Normals taken from nodal masses are central differences, one-sided at the boundary. A contact added to the builder keeps its bodies, friction and options, and a step with a contact configured runs and conserves momentum.",
     ["inputs", "configurations"], "every pair of nodal momenta, masses, distances and unit normals, 2D and 3D, rigid or deformable actors, any number of nodes; mass gradients on listed grid sizes with arbitrary masses",
     "The node law is an if-tree over unsampled signs; no test touches grid contact (a step with it configured does not even run: known finding).",
     ["hydraxmpm/forces/gridcontact.py", "hydraxmpm/common/builder.py"],
     [("node law", "hydraxmpm/forces/gridcontact.py _solve_node_collision"), ("mass gradient", "hydraxmpm/forces/gridcontact.py _compute_mass_gradient"), ("hook", "hydraxmpm/forces/gridcontact.py apply_grid_moments")])
prop("C19", "Assembling a simulation keeps every reference on its object",
     "Whatever the order in which bodies, grids, laws, rigid objects, couplings and forces are added, the assembled solver and state pair them as requested: each coupling uses its own body, grid, law with that law's history, kernel and solver state; each force its own state, targets, friction and object; omitted arguments mean the latest object (couplings, colliders) or all of them (forces); subsets of couplings and forces keep working. A step of the assembled simulation equals a step of the same solver put together by hand. Grids cover the padded domain with nodes at origin + i h, and generated particles are the lattice or random points inside the object.",
     ["configurations", "inputs"], "enumerated: all orders of three bodies and three couplings with varying orders of forces, grids, laws and objects, both schemes, arbitrary array contents; listed grid extents and object shapes (bounded)",
     "Index mix-ups need several bodies, grids and forces added in unusual orders; no test uses the builder.",
     ["hydraxmpm/common/builder.py", "hydraxmpm/grid/grid.py", "hydraxmpm/utils/generate_body.py"],
     [("assembly", "hydraxmpm/common/builder.py add_*, couple, set_solver, build"), ("grid extents", "hydraxmpm/grid/grid.py GridDomain.create"), ("particle generation", "hydraxmpm/utils/generate_body.py")],
     note="bounded: enumerated configurations; within each, index bookkeeping is evaluated exactly and array contents are symbolic (proved equal for all values)", level="other")
prop("C20", "Saved simulations load back exactly",
     "Every simulation state saved during a run gets its own file, and loading step n returns exactly the state last saved under step n (all arrays, time, step, histories, bitwise), whatever other steps were saved before or after and however large the step number; the solver configuration loads back with any of them and the metadata file holds the solver type, a timestamp and the given information. Starting a recorder cleans only its own directory, keeps it when overwriting is off, and places it relative to the given script.",
     ["histories", "inputs"], "enumerated step numbers of one to seven digits in increasing and shuffled order with a repeated save; state contents symbolic under the assumed contract of the serialiser, and executed with the real serialiser",
     "File name collisions and partial states appear only for long runs, repeated or continued recordings; no test saves anything.",
     ["hydraxmpm/common/sim_io.py"],
     [("save", "hydraxmpm/common/sim_io.py SimIO.save_step, save_solver"), ("load", "hydraxmpm/common/sim_io.py load_simulation"), ("directory", "hydraxmpm/common/sim_io.py SimIO.__init__")],
     note="bounded: enumerated step numbers and directories; contents of the saved states symbolic under the assumed contract of the serialiser", level="other")

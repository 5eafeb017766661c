"""The properties: text, anchors and deciding technique. tools/gen.py renders them."""
LAY = "src/reactpy/core/layout.py"
LCH = "src/reactpy/core/_life_cycle_hook.py"
HOOKS = "src/reactpy/core/hooks.py"

NA = {}
PROPS = {}

PROPS["C01"] = dict(
    title="Hooks act on the component being rendered and on no other",
    statement="While a component renders, and only then, hooks act on that component; however its render ends (result, error, cancellation), "
    "it stops being current and the component can be rendered again. At most one render of a component runs at a time, and concurrent renders "
    "never see each other's current component. A render which could not begin leaves nothing behind.",
    over=["schedules", "fault_sequences", "programs"],
    quant="every component tree, every interleaving of renders, every point at which a render raises or is cancelled",
    why="Tests render a few trees to completion; they do not cancel or fail a render at each of its suspension points.",
    files=[LCH, LAY, "src/reactpy/utils.py"],
    mechanism=[("render permit and hook stack", f"{LCH}: affect_component_will_render/did_render"), ("try/finally around a component's render", f"{LAY}: _render_component"), ("stack token per layout update", f"{LAY}: _create_layout_update")],
    observe=["Layout.render()", "hooks called in a component body"],
    technique="typestate (begin/end of renders, permits, hook stack) on inlined control-flow graphs with exception and cancellation edges",
)
PROPS["C02"] = dict(
    title="A failing component renders as an error and disturbs nothing else",
    statement="An exception raised by a component's render function, or while its children are resolved, is logged and replaces that component's output by an error element; "
    "siblings and ancestors are rendered as usual and the layout goes on working. "
    "The exception's type and message are part of that element in debug mode only.",
    over=["programs", "inputs", "configurations"],
    quant="every component, every exception it may raise, both settings of debug mode",
    why="Tests raise one or two exception types at one or two places.",
    files=[LAY],
    mechanism=[("handler around render and children", f"{LAY}: _render_component")],
    observe=["layout updates", "log"],
    technique="exception-flow analysis of the recursive renderer and taint from the exception to the model",
)
PROPS["C03"] = dict(
    title="State follows a child's key (or position) and its component function",
    statement="A component keeps its state between renders of its parent exactly as long as a component made by the same function is found under the same key there, the position being the key of children without one. "
    "Another component or element in that place starts afresh. Siblings with equal keys are refused rather than mixed up, and a child's path is its parent's path extended by its own position.",
    over=["programs", "histories"],
    quant="every sequence of child lists (insertions, removals, moves, type changes, explicit and implicit keys)",
    why="Tests use a handful of list edits; the rule has to hold for every edit history.",
    files=[LAY],
    mechanism=[("choice between carrying over and creating a hook", f"{LAY}: _render_component"), ("keys of children", f"{LAY}: _get_children_info")],
    observe=["layout updates after state changes"],
    technique="path-sensitive dataflow: conditions under which a hook is carried over; provenance of keys and paths",
)
PROPS["C04"] = dict(
    title="Whatever leaves the tree is unmounted, completely and once",
    statement="A component or element which is removed from the tree, replaced by something else, or lost because a render above it failed is unmounted: its event handlers are removed, "
    "the hook of each component in it is unmounted exactly once, and the same happens to everything below it. What stays in the tree is not unmounted.",
    over=["programs", "histories", "fault_sequences"],
    quant="every tree, every sequence of changes to it, every failing render",
    why="Tests remove a few children in a few shapes of tree.",
    files=[LAY],
    mechanism=[("work list of states to unmount", f"{LAY}: _unmount_model_states"), ("children which vanished or were replaced", f"{LAY}: _render_model_children, _render_component, _render_model")],
    observe=["effect cleanup functions", "Layout._event_handlers"],
    technique="typestate of each old child on all paths of the recursive renderer and of the unmounting work list",
    note="A render cancelled in the middle is not covered.",
)
PROPS["C05"] = dict(
    title="Closing a layout ends all of its work and unmounts its tree",
    statement="When the layout's context is left, every task which the layout or its render queue created has been cancelled and has ended, and the tree was unmounted from its root after that. "
    "A task which failed, or several of them, do not prevent it, and no task of the layout goes on after it was cancelled. "
    "Components which a render had begun when it was cancelled are unmounted as well, and no render begins although state changes while tasks are cancelled and effects are cleaned up.",
    over=["schedules", "fault_sequences"],
    quant="every moment at which the context is left, every set of running renders, event handlers and queued requests, whatever they raise",
    why="Tests close a layout in one or two states of its work.",
    files=[LAY],
    mechanism=[("exit of the layout", f"{LAY}: Layout.__aexit__"), ("queue of requests", f"{LAY}: _ThreadSafeQueue.close")],
    observe=["asyncio.all_tasks()", "effect cleanup functions"],
    technique="task ownership analysis (every creation site to the collection which keeps it), exception-aware path analysis of the exit, and abstract interpretation of closing with renders which are under way, cut off where they wait, or requested meanwhile",
)
PROPS["C06"] = dict(
    title="No state change of a mounted component is lost",
    statement="After a state setter is called with a different value, a render of that component begins which reads the new value: the value is stored before the render is requested, "
    "and a request is merged with an earlier one only if the render of that one has not begun. "
    "This holds whether the setter is called during a render, in an event handler, an effect, or another thread, and after a request failed.",
    over=["schedules", "inputs"],
    quant="every interleaving of setters, renders and cancellations, in both render modes, from every thread",
    why="Tests call setters at convenient moments; a lost update needs a particular interleaving.",
    files=[LAY, LCH, HOOKS],
    mechanism=[("state setter", f"{HOOKS}: _CurrentState"), ("pending flag", f"{LCH}: schedule_render"), ("render tasks and queue", f"{LAY}: _schedule_render_task, _ThreadSafeQueue")],
    observe=["Layout.render()"],
    technique="typestate of the pending flag and queue membership; ordering of store, request and registration on all paths",
)
PROPS["C07"] = dict(
    title="Finished renders are delivered once each, in the order they finished",
    statement="Layout.render() returns the updates of finished renders in the order in which the renders finished, none twice and none left out except those of cancelled renders; the failure of a render is raised to its caller. "
    "An update carries the path and the model of the state which its render produced.",
    over=["schedules"],
    quant="every number of concurrent renders, every order of completion and cancellation",
    why="Tests have at most a few renders in flight and do not choose the order in which they finish.",
    files=[LAY],
    mechanism=[("finished tasks", f"{LAY}: _render_task_completed"), ("consumer", f"{LAY}: _parallel_render, _serial_render"), ("update", f"{LAY}: _create_layout_update")],
    observe=["Layout.render()"],
    technique="typestate of a finished task from its completion callback to the consumer's return; provenance of the update's fields",
)
PROPS["C08"] = dict(
    title="An event reaches the current handler of its own element, in order, and no other",
    statement="An event delivered to the layout runs the handler which its target's element has in the latest render, with the event's data, and no handler if that element or handler is gone; targets of different elements never coincide. "
    "Events of one target are handled one after another in the order of their arrival, and those of different targets do not wait for each other. A handler which raises, CancelledError included, is logged and disturbs nothing else.",
    over=["schedules", "histories", "inputs"],
    quant="every sequence of renders and events, every interleaving of handlers, events which arrive for elements that are gone or not rendered yet",
    why="Tests deliver a few events to handlers which finish at once.",
    files=[LAY],
    mechanism=[("queue and consumer per target", f"{LAY}: _process_event_queues, deliver"), ("registration of handlers", f"{LAY}: _render_model_event_handlers*")],
    observe=["Layout.deliver()", "calls of event handlers"],
    technique="typestate of handler registration per path of the renderer, provenance of targets, ownership and order analysis of the per-target queues",
)
PROPS["C09"] = dict(
    title="An input element is told the highest sequence number received from it",
    statement="The sequence number of each event is recorded under its own target before its handler runs, if it is an integer and higher than the one recorded before. "
    "A rendered input, select or textarea carries the highest number recorded for its own targets, and no other element carries one; an element which is new knows none.",
    over=["histories", "inputs"],
    quant="every order of events, renders and replaced elements, every value a client may send",
    why="Tests send one or two numbered events to one element.",
    files=[LAY],
    mechanism=[("recording", f"{LAY}: _process_event_queue"), ("acknowledgement", f"{LAY}: _inject_event_ack_seq")],
    observe=["attribute _reactpy_ack_seq of layout updates"],
    technique="provenance of recorded and acknowledged numbers, guard analysis of the comparisons, ordering of record, handler call and acknowledgement on all paths",
)
PROPS["C10"] = dict(
    title="Effects run after the layout rendered, one at a time, and are cleaned up once",
    statement="An effect runs after the whole layout update was rendered, when its dependencies changed, and only after the previous run of it has ended (cancelled unless shielded) and has been cleaned up. "
    "Its clean-up function is called exactly once: before the next run or when the component is unmounted, not while the effect's function is running. "
    "Unmounting tells every effect to stop and waits for all of them, also if the task which does so is cancelled meanwhile, and no effect of the component starts after that.",
    over=["schedules", "histories", "fault_sequences"],
    quant="every sequence of renders, dependency changes and unmounting, every effect function and clean-up function, including ones which raise or take long",
    why="Tests run effects which finish between two renders; the guarantee is about those which do not.",
    files=[HOOKS, LCH, LAY],
    mechanism=[("effect coroutines", f"{HOOKS}: use_effect, use_async_effect"), ("start and end of effects", f"{LCH}: affect_layout_did_render, affect_component_will_unmount"), ("exit stack of an update", f"{LAY}: _create_layout_update")],
    observe=["calls of effect functions and clean-up functions"],
    technique="typestate of the stored clean-up function, the pending task and the stop event in the effect coroutines; resource analysis of tasks and stop events; abstract interpretation of layout trees and hook histories",
)
PROPS["C11"] = dict(
    title="Memoized values change exactly when their dependencies do",
    statement="use_memo and use_callback give the value computed last as long as every dependency is equal to the one given then, in number and order, and compute it again when one is not; without dependencies always. "
    "Dependencies not given are the values the function closes over. Equality needs equal types, never confuses different values such as 1, 1.0 and True, and a computation which raised is not remembered.",
    over=["inputs", "histories"],
    quant="every sequence of dependencies of every type, every function, every computation which raises",
    why="Tests try a few dependencies; confusion needs particular types or a failing computation.",
    files=[HOOKS],
    mechanism=[("memo", f"{HOOKS}: use_memo, use_callback"), ("inferred dependencies", f"{HOOKS}: _try_to_infer_closure_values"), ("comparison", f"{HOOKS}: strictly_equal")],
    observe=["values returned by hooks", "calls of the memoized function"],
    technique="path-sensitive automaton over what is known about the stored and the given dependencies; return-value analysis of the comparison; abstract interpretation of hook histories",
    note="Functions with the same code are equal by design, whatever they close over; dependencies None followed by () are not covered.",
)
PROPS["C12"] = dict(
    title="Hook state keeps its place; updaters and reducers see the newest value",
    statement="The state which a hook keeps belongs to its position among the hook calls of its component: the first render creates it, once, and each later render finds it in the same place. "
    "A setter which is called with a function passes it the value stored at that moment and stores the result, so that several calls in a row add up; dispatching an action does so with the reducer. "
    "A setter, dispatch function, ref or constant keeps its identity between renders.",
    over=["programs", "histories"],
    quant="every component and sequence of hooks, renders, setter calls and actions, however they interleave",
    why="Tests use a few hooks and calls in components written for the purpose.",
    files=[HOOKS, LCH],
    mechanism=[("state slots", f"{LCH}: LifeCycleHook.use_state"), ("setter", f"{HOOKS}: _CurrentState"), ("reducer", f"{HOOKS}: use_reducer")],
    observe=["values returned by hooks", "calls of initializers, updater functions and reducers"],
    technique="automaton over slot index and slot list on all paths; provenance of the value passed to updaters and reducers; abstract interpretation of hook histories",
)
PROPS["C13"] = dict(
    title="A context's value is that of the nearest provider above",
    statement="use_context gives the value of the nearest provider of that context above the component, as of its latest render, and the context's default if there is none; a provider whose value is None is still a provider. "
    "Providers of one subtree are not visible in another, a re-render of a component below keeps seeing them, and different contexts never mix.",
    over=["programs", "histories"],
    quant="every tree of components and providers, every sequence of renders of parts of it",
    why="Tests have one or two providers at fixed places.",
    files=[HOOKS, LCH],
    mechanism=[("registration and lookup", f"{LCH}: set_context_provider, get_context_provider"), ("inheritance", f"{LCH}: affect_component_will_render"), ("provider component", f"{HOOKS}: _ContextProvider, use_context")],
    observe=["values returned by use_context"],
    technique="provenance and ordering analysis of the provider mapping from registration through inheritance to lookup; abstract interpretation of trees of providers",
)
PROPS["C14"] = dict(
    title="What the application hands over is not modified",
    statement="Attributes, children and models which components return or pass to element constructors, and options passed to conversion functions, PyScript helpers and executors, are never changed in place: "
    "using the same object in several elements, renders, pages or apps gives the same result as using equal copies of it.",
    over=["inputs", "programs"],
    quant="every container the application may pass, however deeply nested and however often it is used again",
    why="Tests use each object once; a modification shows in the second use.",
    files=["src/reactpy/core/vdom.py", LAY, "src/reactpy/utils.py", "src/reactpy/transforms.py", "src/reactpy/_html.py", "src/reactpy/widgets.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/asgi/pyscript.py", "src/reactpy/executors/pyscript/utils.py"],
    mechanism=[("element constructor", "src/reactpy/core/vdom.py: Vdom.__call__"), ("rendering", f"{LAY}: _render_model*"), ("options", "src/reactpy/executors: constructors")],
    observe=["the objects themselves after use"],
    technique="ownership (borrow) analysis: every mutation site against what may be reached from parameters and component results without a copy",
)
PROPS["C15"] = dict(
    title="Everything given to an element constructor has exactly one place in the result",
    statement="Whatever attribute dictionaries and children are passed to an element constructor, every attribute is found once in the element made - as event handler, inline script or attribute, the later of two with one name winning - "
    "and every child once, in the order given and flattened, while tag name, key and import source are those of the constructor. "
    "Children which the element cannot have are refused.",
    over=["inputs"],
    quant="every mix of attribute dictionaries, handlers, inline scripts, children, generators and nested lists",
    why="Tests construct a few elements; the classes of attributes and children combine freely.",
    files=["src/reactpy/core/vdom.py", "src/reactpy/_html.py"],
    mechanism=[("element constructor", "src/reactpy/core/vdom.py: Vdom.__call__"), ("attribute separation", "src/reactpy/core/vdom.py: separate_attributes_*")],
    observe=["the VDOM dictionary returned by reactpy.html.* and reactpy.Vdom"],
    technique="abstract interpretation of the element constructor: value of every entry for each combination of classes of arguments",
)
PROPS["C16"] = dict(
    title="Event handler options take effect and merged handlers all run",
    statement="The options of an event handler - prevent_default, stop_propagation, debounce, throttle, target - reach the client as given, plus those its function uses on the event, whether set by the decorator or the handler class. "
    "The user's function is called once per event with the event data and awaited when asynchronous. "
    "Handlers whose options differ are not merged; merged ones keep their options and each is called.",
    over=["inputs", "programs"],
    quant="every combination of options, every function (plain, asynchronous, wrapped, bound, partial), every number of merged handlers",
    why="Tests try a few combinations; options of zero, three handlers or doubly wrapped functions are not among them.",
    files=["src/reactpy/core/events.py", "src/reactpy/core/_event_inspect.py", LAY],
    mechanism=[("handler", "src/reactpy/core/events.py: EventHandler, event, to_event_handler_function"), ("merging", "src/reactpy/core/events.py: merge_event_handlers"), ("serialisation", f"{LAY}: _serialize_event_handler"), ("options in the body", "src/reactpy/core/_event_inspect.py")],
    observe=["eventHandlers of a layout update", "calls of the user's functions"],
    technique="abstract interpretation of the handler functions and of the closures they return, for every combination of option classes",
)
PROPS["C17"] = dict(
    title="The browser client gets every message through in order, and reconnects",
    statement="Each message the JavaScript client is asked to send is sent once, as JSON and in order, at once while the connection is open, else when it next opens; each message received reaches every handler registered for its type, till it unregisters, and no other. "
    "The connection is opened once something is registered, with the location's current path and query; after a loss it is opened again after the interval, multiplied each time up to the maximum, as often as retries are allowed, counted anew after each success; one which was never established is not.",
    over=["histories", "schedules"],
    quant="every series of messages asked for and received, connections opened and lost, handlers registered and removed, locations and reconnect options",
    why="The client has no tests which run without a browser and a server; those that exist lose a connection once.",
    files=["src/js/packages/@reactpy/client/src/client.ts", "src/js/packages/@reactpy/client/src/websocket.ts", "src/js/packages/@reactpy/client/src/mount.tsx"],
    mechanism=[("ReactPyClient, BaseReactPyClient", "src/js/packages/@reactpy/client/src/client.ts"), ("createReconnectingWebSocket", "src/js/packages/@reactpy/client/src/websocket.ts")],
    observe=["new ReactPyClient({...}).sendMessage / onMessage", "mountReactPy({...})"],
    technique="interpretation of the client's syntax trees over scripted histories of an abstract connection, branches on opaque values followed both ways",
    note="A message given to a socket which is open counts as sent; what the network loses is not seen.",
)


PROPS["C18"] = dict(
    title="The serve loop loses, repeats and reorders nothing",
    statement="While a layout is served, every update it renders is sent exactly once, before the next one is rendered, and every event received is delivered exactly once without waiting for the handlers of earlier events. "
    "An exception of rendering, sending or receiving is never swallowed: it ends serving, with its exception, after every running handler has been cancelled and the layout has been closed.",
    over=["schedules", "fault_sequences", "histories"],
    quant="every sequence of updates and events, every point at which send, receive or render fails",
    why="Tests send a couple of events and never fail the transport.",
    files=["src/reactpy/core/serve.py"],
    mechanism=[("serve loop", "src/reactpy/core/serve.py: serve_layout")],
    observe=["send and recv callbacks of serve_layout"],
    technique="abstract interpretation of the serve loop and of the tasks it starts, with a monitor for held updates and events",
)
PROPS["C19"] = dict(
    title="Only registered root components are served, each to its own connection",
    statement="A websocket connection is served a component only if the dotted path in its URL is exactly the name of a root component registered with the middleware (or is the standalone application's own path); then it is that component, made anew for the connection, in a connection context with the connection's own scope, socket and the location from its query string. "
    "For any other name nothing is served, and no request makes the server import anything by name.",
    over=["inputs", "configurations"],
    quant="every path and query string of a connection, every set of registered components",
    why="Names in URLs are chosen by clients; tests request one registered and one unregistered name.",
    files=["src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/utils.py"],
    mechanism=[("component selection", "src/reactpy/executors/asgi/middleware.py: ReactPyWebsocket.run_dispatcher"), ("registration", "src/reactpy/executors/utils.py: import_components"), ("location", "src/reactpy/executors/asgi/middleware.py: _location_from_websocket_query_string")],
    observe=["component rendered for a websocket URL", "use_connection() in it"],
    technique="abstract interpretation of a connection from application constructor to serve loop, and call-graph reachability of import functions from the ASGI entry points",
)
PROPS["C20"] = dict(
    title="Every ASGI request is handled by exactly one application, the right one",
    statement="Websocket connections for a component path go to the component dispatcher, requests below the static and modules paths to the file applications, those matching a user-defined route to that route's application, lifespan events to the lifespan application, and everything else to the user's application (or the standalone page), each exactly once with scope, receive and send unchanged. "
    "This holds for every path prefix, including ones with characters that mean something in patterns.",
    over=["inputs", "configurations"],
    quant="every path, scope type, path prefix and set of user routes",
    why="Tests use the default prefix and a few paths.",
    files=["src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/asgi/pyscript.py"],
    mechanism=[("routing", "src/reactpy/executors/asgi/middleware.py: ReactPyMiddleware.__call__"), ("paths and patterns", "src/reactpy/executors/asgi/middleware.py: ReactPyMiddleware.__init__"), ("standalone routes", "src/reactpy/executors/asgi/standalone.py: ReactPy.match_extra_paths, route, lifespan")],
    observe=["which application is called for a request"],
    technique="abstract interpretation of the three executors from their constructors over a grid of prefixes, scope types and paths",
)
PROPS["C21"] = dict(
    title="A connection delivers every event to its own layout and ends cleanly",
    statement="Each layout event received on a websocket is put, once and in order, in the queue of that connection before the next message is received; other messages are not, and the loop ends exactly when the client disconnects. "
    "Rendering starts after the connection was accepted, its task is cancelled and the connection closed on every way out, each update is sent once as text, failures are logged, and cancellation is never swallowed.",
    over=["schedules", "fault_sequences", "histories"],
    quant="every sequence of messages, every point of disconnection, cancellation or failure",
    why="Tests use one well-behaved client; slow accepts, failing closes and concurrent connections are not among them.",
    files=["src/reactpy/executors/asgi/middleware.py"],
    mechanism=[("receive loop", "src/reactpy/executors/asgi/middleware.py: ComponentDispatchApp.__call__"), ("life of a connection", "src/reactpy/executors/asgi/middleware.py: ReactPyWebsocket")],
    observe=["ASGI messages sent and received on a websocket", "tasks left running"],
    technique="abstract interpretation of the connection's constructor, entry, exit and receive loop with a monitor for held messages, plus flow analysis of cancellation edges",
)
PROPS["C22"] = dict(
    title="The page of a standalone application is whole and its caching headers are right",
    statement="Every GET of a standalone application (server- or client-side rendered) is answered with the same complete page - language, head, prepended body, what mounts the component - and headers describing it: content-length in bytes, content-type with charset, an etag derived from the whole page, a fixed date, and the user's headers. "
    "HEAD gets the same headers without the body; a client which has the current page (etag or date) gets 304 without body; any other gets the page, and no request changes what later ones get.",
    over=["inputs", "histories", "configurations"],
    quant="every sequence of requests, conditional headers, page contents (characters of several bytes) and header options",
    why="Tests make one request of each kind with an ASCII page.",
    files=["src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/asgi/pyscript.py"],
    mechanism=[("responses", "src/reactpy/executors/asgi/standalone.py: ReactPyApp.__call__"), ("page", "src/reactpy/executors/asgi/standalone.py: ReactPyApp.render_index_html"), ("page, client-side", "src/reactpy/executors/asgi/pyscript.py: ReactPyPyscriptApp.render_index_html")],
    observe=["HTTP responses of ReactPy and ReactPyCsr"],
    technique="abstract interpretation of the page applications over sequences of classes of requests",
)
PROPS["C23"] = dict(
    title="Configuration options behave as specified in every history of operations",
    statement="The current value of an option is the last valid value set - by environment variable, assignment, set_current, set_default (only if none is set), reload, or its parent - or else its default; invalid values and changes of immutable options are refused without effect. "
    "Subscribers are told the current value when they subscribe and then each change, once and in order, and a child option follows its parent.",
    over=["histories", "inputs", "configurations"],
    quant="every sequence of operations on an option, with and without environment variable, parent and subscribers",
    why="Tests run a dozen short sequences; the combinations of unset, reload, falsy values, parents and subscribers are not among them.",
    files=["src/reactpy/_option.py", "src/reactpy/config.py"],
    mechanism=[("option", "src/reactpy/_option.py: Option"), ("deprecated option", "src/reactpy/_option.py: DeprecatedOption"), ("options of the package", "src/reactpy/config.py")],
    observe=["Option.current, is_set(), subscribers", "reactpy.config"],
    technique="abstract interpretation of the option's methods on every state reachable by operations, in lock step with a specification",
)
PROPS["C24"] = dict(
    title="Settings configure exactly their options, and pages carry their current values",
    statement="Every setting an executor is given is assigned to its own option, whatever its value, and the executor goes by it; a wrong or unknown one is refused, a wrong prefix or directory before anything is changed. "
    "Pages and import maps carry the values options have when they are made, and boolean options mean the same in every spelling.",
    over=["inputs", "configurations"],
    quant="every executor, every combination of settings, every value of the options a page depends on",
    why="Tests pass two or three settings with truthy values to one executor and never look at what the page makes of them.",
    files=["src/reactpy/config.py", "src/reactpy/executors/utils.py", "src/reactpy/executors/asgi/middleware.py", "src/reactpy/reactjs/module.py"],
    mechanism=[("settings to options", "src/reactpy/executors/utils.py: process_settings"), ("validation in the constructor", "src/reactpy/executors/asgi/middleware.py: ReactPyMiddleware.__init__"), ("page and import map", "src/reactpy/executors/utils.py: server_side_component_html, default_import_map"), ("validator", "src/reactpy/config.py: boolean")],
    observe=["options after an executor was made", "text of the page"],
    technique="abstract interpretation of constructors and page templates over a table of options, and parsing of the resulting text",
)
PROPS["C25"] = dict(
    title="A component from JavaScript is made of exactly what its call asked for",
    statement="Components made from a URL, package, file or string have the source, names, fallback and flags of their own call, whatever was made before them, and different contents never share a module unless they were given the same name. "
    "If exports are resolved, names which the module or the modules it refers to do not export are refused, and each reference is relative to the module which has it.",
    over=["histories", "inputs"],
    quant="every pair of calls which differ in a parameter, in both orders; every way modules refer to each other",
    why="Tests make each component once; caches show only when a second call differs in the right parameter.",
    files=["src/reactpy/reactjs/__init__.py", "src/reactpy/reactjs/module.py", "src/reactpy/reactjs/utils.py", "src/reactpy/web/module.py"],
    mechanism=[("caches of modules", "src/reactpy/reactjs/__init__.py: component_from_url, component_from_file, component_from_string"), ("constructors of modules", "src/reactpy/reactjs/module.py"), ("resolution of names", "src/reactpy/reactjs/utils.py: resolve_names_from_url, resolve_names_from_file")],
    observe=["the import source of the component", "the module which is served"],
    technique="abstract interpretation of two-call histories with the module-level caches as state",
    note="Finding the exports in a module's text is not covered, nor a third call which returns to content replaced under the same name.",
)
PROPS["C26"] = dict(
    title="A served JavaScript module is whole and current, and published by one at a time",
    statement="A module from a file or string becomes the served file of its name by one atomic replacement with the whole content it was given, under a lock which every publisher of that name takes. "
    "The lock is given up however publishing ends, a lock held by another process is respected and never removed, and waiting for it ends.",
    over=["fault_sequences", "schedules", "inputs"],
    quant="every name, every previous content, every failing file operation, every behaviour of another publisher",
    why="Tests publish once, in one process, on a file system that never fails.",
    files=["src/reactpy/reactjs/module.py", "src/reactpy/reactjs/utils.py"],
    mechanism=[("publishing", "src/reactpy/reactjs/module.py: file_to_module, string_to_module"), ("copy and lock", "src/reactpy/reactjs/utils.py: copy_file, file_lock"), ("place of a module", "src/reactpy/reactjs/module.py: get_module_path")],
    observe=["the served file at every moment", "lock files"],
    technique="abstract interpretation over a file-system model with failing operations (typestate of lock and served file)",
    note="Modules published as symbolic links, and the documented fallback after two failed replacements, are not atomic and not covered.",
)

PROPS["C27"] = dict(
    title="The browser shows each model as it was sent and sends each event as asked",
    statement="After each layout-update (of the root, replacing all of it, or of the part at its path) the page shows the model: elements, fragments, attributes, texts and children in order, keyed elements staying the same, errors as text, scripts, components of JavaScript modules (by name or URL, dotted names) rendered with each new model and unmounted when gone. "
    "Each event of a handler is sent once to its target with its data and a growing sequence number, default and propagation prevented as asked, throttled and debounced handlers sending the last event of each wait; inputs take the server's value exactly when it has acknowledged every event they sent.",
    over=["histories", "schedules"],
    quant="every series of updates, events, waits and late modules; every model",
    why="Python tests see the messages, not the page; the client's behaviour is seen only by browser tests, which sample a few models and never a late acknowledgement or module.",
    files=["src/js/packages/@reactpy/client/src/components.tsx", "src/js/packages/@reactpy/client/src/vdom.tsx", "src/js/packages/@reactpy/client/src/handler.ts"],
    mechanism=[("Layout, Element, StandardElement, UserInputElement, useImportSource, throttleHandler, debounceHandler", "src/js/packages/@reactpy/client/src/components.tsx"), ("createAttributes, createChildren, loadImportSource, ReactPyChild", "src/js/packages/@reactpy/client/src/vdom.tsx")],
    observe=["<Layout client={client} /> in a page", "messages given to client.sendMessage"],
    technique="interpretation of the client's syntax trees over scripted histories, with models of preact and of the page, snapshots compared with the models sent",
    note="preact and json-pointer are modelled as documented; fallbacks of modules, inline JavaScript in modules and limits across renders are not covered.",
)


PROPS["C28"] = dict(
    title="Converting between HTML and models keeps every part, in its place",
    statement="string_to_reactpy makes one child of every element and every text, in document order, gives every attribute its React name, and adapts style, textarea, input, select, option, links and keys (never two equal keys among siblings) without losing content; every given transform is applied to every node, in the given order. "
    "reactpy_to_string writes every child (elements, texts, numbers, fragments, components of any depth; not None) exactly once and in order, and every present attribute under its HTML name.",
    over=["inputs", "programs"],
    quant="every tree of elements, texts, fragments and components, every attribute, every list of transforms",
    why="Trees and attributes combine without bound; tests hold a dozen small examples, none of which puts text around fragments or components.",
    files=["src/reactpy/utils.py", "src/reactpy/transforms.py"],
    mechanism=[("HTML to model", "src/reactpy/utils.py: string_to_reactpy, _etree_to_vdom, _generate_vdom_children"), ("adaptation", "src/reactpy/transforms.py: RequiredTransforms"), ("names", "src/reactpy/transforms.py: REACT_PROP_SUBSTITUTIONS"), ("model to HTML", "src/reactpy/utils.py: reactpy_to_string, _add_vdom_to_etree, component_to_vdom")],
    observe=["the model made of an HTML string", "the HTML string made of a model"],
    technique="abstract interpretation over classes of trees and attributes, lxml trees modelled as text and tail; name tables evaluated from the source",
    note="The parser and serialiser of lxml are trusted; handlers and inline JavaScript have no HTML form and are left out by design.",
)
PYU = "src/reactpy/executors/pyscript/utils.py"
PROPS["C29"] = dict(
    title="The script of a PyScript component is the user's code, in its own element",
    statement="The script of a PyScript component defines one function, with a name of its own, whose body is the code of all its files in the given order and which returns the root component, and one task which runs it in the element made with it; files without that component are refused. "
    "Minifying and indenting change neither what code does nor its strings. The configuration for PyScript has ReactPy's packages and modules, those the application adds, and the application's own values where both have one, and the page carries it unchanged.",
    over=["inputs", "configurations", "programs"],
    quant="every Python program as user code (strings, comments, docstrings, tabs, several files), every configuration",
    why="Tests use one or two small files without strings which look like code.",
    files=[PYU, "src/reactpy/executors/pyscript/component_template.py"],
    mechanism=[("minify_python, indentation of user code", PYU), ("template of a component", "src/reactpy/executors/pyscript/component_template.py"), ("configuration", f"{PYU}: extend_pyscript_config")],
    observe=["pyscript_executor_html()", "pyscript_component_html()", "pyscript_setup_html()"],
    technique="abstract interpretation of the text rewriting over a grid of constant programs, results parsed and compared as syntax trees",
    note="Programs are the listed kinds, not all; user code which contains </script>, and statements which are allowed on module level only, are not covered.",
)
PROPS["C30"] = dict(
    title="Constructors of elements, components and widgets give what was asked for",
    statement="`html.<name>` and `html.svg.<name>` give the constructor of the element of that name, whichever names were used before, void elements refuse children; fragments have children and a key only, scripts one text (and a key made from it); "
    "a component keeps its function, key and arguments and renders with them, and functions with a parameter `key` are refused; linked inputs all show one state value, which each change sets (uncast) once, `on_change` getting the cast value unless it is empty and that is ignored; images are data URLs with the given attributes, which are not modified.",
    over=["histories", "inputs"],
    quant="every series of names asked for, every signature, every series of calls, every kind of value and event",
    why="Tests ask for a few names once and make components with one or two signatures; what one request leaves behind for the next is not seen.",
    files=["src/reactpy/_html.py", "src/reactpy/core/component.py", "src/reactpy/types.py", "src/reactpy/widgets.py"],
    mechanism=[("SvgConstructor, HtmlConstructor, _fragment, _script", "src/reactpy/_html.py"), ("component", "src/reactpy/core/component.py"), ("image, use_linked_inputs", "src/reactpy/widgets.py")],
    observe=["html.div(...), html.svg.g(...)", "component(f)(*args, key=...).render()", "use_linked_inputs(...)", "image(...)"],
    technique="abstract interpretation of attribute lookup and constructors over series of requests, with per-kind expectations",
    note="Names, signatures and values are the listed kinds; what Vdom does with its arguments is C15.",
)


PROPS["C31"] = dict(
    title="What the browser sends of an event is finite plain data with what handlers read",
    statement="Every event object becomes a tree which can be written as JSON, no deeper than the maximum, although event objects have cycles, functions, windows, documents and properties that cannot be read. "
    "Within the depth each text, number and boolean (also empty, zero and false, inherited or on an input not enumerated: value, checked, type, name, files, dataset; form elements; the selection) is in it under its name, lists in order, objects wherever they are used; constants, functions and the page's own structure are not; the event is not changed.",
    over=["inputs"],
    quant="every event object: own, inherited and failing properties, cycles, shared objects, lists, depths",
    why="Tests convert a few events of an emulated page; cycles, failing getters, sharing and depth come from real pages.",
    files=["src/js/packages/event-to-object/src/index.ts"],
    mechanism=[("convert, deepCloneClass, classToObject, classToArray, shouldIgnoreValue", "src/js/packages/event-to-object/src/index.ts")],
    observe=["convert(event, maxDepth)"],
    technique="interpretation of the conversion's syntax trees over kinds of event objects, results compared with what each kind requires",
)


PROPS["C32"] = dict(
    title="The rewriting commands change keys and props of elements, and nothing else",
    statement="`reactpy rewrite-keys` and `rewrite-props` read and write as UTF-8 each file they are given and each `*.py` below each given folder, those with nothing to rewrite are not written. A rewritten file is a program with the syntax tree and comments of the original, except: every `key=` of an element constructor (`html.x(...)`, a bare name of a standard element, `vdom`) is in its dict of props, which is added before texts if there is none (calls whose first argument may be anything stay); "
    "every string key of an element's props, of its `style` dict and keyword of a `dict(...)` there is camelCase, unless it could not be a keyword anymore. This holds for every usage (several on a line, one in another, in heads of blocks, decorators and comprehensions, next to text which is not ASCII, tabs and strings of several lines), while other calls and nested values stay as they are.",
    over=["inputs"],
    quant="every program: positions and nesting of usages, surrounding text, kinds of arguments and props, every tree of files",
    why="The commands overwrite users' source; tests sample short ASCII programs with one usage per line.",
    files=["src/reactpy/_console/ast_utils.py", "src/reactpy/_console/rewrite_keys.py", "src/reactpy/_console/rewrite_props.py"],
    mechanism=[("rewrite_changed_nodes, find_element_constructor_usages", "src/reactpy/_console/ast_utils.py"), ("rewrite_keys, generate_rewrite", "src/reactpy/_console/rewrite_keys.py"), ("rewrite_props, generate_rewrite, conv_attr_name", "src/reactpy/_console/rewrite_props.py")],
    observe=["generate_rewrite(file, source)", "reactpy rewrite-keys PATHS", "reactpy rewrite-props PATHS"],
    technique="abstract interpretation of both commands over kinds of programs whose syntax trees are objects of the analysis, results compared with what the kind requires",
    note="Programs are the listed kinds; where moved comments are put and how rewritten statements are formatted are not covered.",
)


PROPS["C33"] = dict(
    title="PyScript shows each update's model; only live workspaces remain",
    statement="In the browser, after each update of a PyScript component's layout (of its root or of a part), and before the next is waited for, its own container shows the updated model: tags, texts and fragments in order, attributes (not those which are None or False), classes, styles and a listener for each event handler. "
    "Every event reaches the layout with its handler's target and all its data, in a task which is kept until it is done; names and tasks of workspaces whose element is no longer on the page are deleted and cancelled, those of others stay.",
    over=["histories", "inputs"],
    quant="every series of updates, every model, every event, every set of workspaces on the page",
    why="Tests need a browser for this part; none runs here, and those that exist show one counter.",
    files=["src/reactpy/executors/pyscript/layout_handler.py"],
    mechanism=[("update_model, render_html, create_event_handler, delete_old_workspaces", "src/reactpy/executors/pyscript/layout_handler.py")],
    observe=["ReactPyLayoutHandler(uuid).run(workspace)"],
    technique="abstract interpretation of the handler over scripted histories of updates with a model of the page, snapshots compared with the models",
    note="Series of updates and models are the listed kinds; custom CSS properties, attribute names which React spells differently, preventDefault and event listeners kept by morphdom are not covered.",
)


PROPS["C34"] = dict(
    title="What the test tools assert is so",
    statement="`assert_reactpy_did_log` passes if and only if a record which meets all its criteria (message, class and text of the exception, of any level) was logged within its context, `assert_reactpy_did_not_log` if and only if none was; errors of their bodies come through; `capture_reactpy_logs` gives exactly the records of its context (those of contexts within it are gone when these end), `list_logged_exceptions` exactly the exceptions which meet its criteria, in order, deleting their records and no others; all leave the logger's level and handlers as they were, however they nest or fail. "
    "A `BackendFixture` ends with an error if and only if an exception was logged meanwhile. `poll(...)` passes as soon as, and only if, a newly asked result meets the condition, and raises `TimeoutError` after the timeout and not before; `HookCatcher` has the hook of the last render (per value of its keyword), `StaticEventHandler.use` gives handlers with its target and the flags asked for, and what is mounted last is what each view of `_hotswap`'s component shows when it renders next.",
    over=["histories", "inputs"],
    quant="every series of records, every criterion, every nesting and failure of contexts, every series of results",
    why="Users' test suites rely on these tools: one which passes wrongly hides every other defect; tests log one record at a time.",
    files=["src/reactpy/testing/logs.py", "src/reactpy/testing/common.py", "src/reactpy/testing/backend.py"],
    mechanism=[("assert_reactpy_did_log, assert_reactpy_did_not_log, capture_reactpy_logs, list_logged_exceptions", "src/reactpy/testing/logs.py"), ("poll, HookCatcher, StaticEventHandler", "src/reactpy/testing/common.py"), ("BackendFixture.__aexit__, _hotswap", "src/reactpy/testing/backend.py")],
    observe=["with assert_reactpy_did_log(...)", "with assert_reactpy_did_not_log(...)", "with capture_reactpy_logs()", "list_logged_exceptions(...)", "poll(...).until(...)", "async with BackendFixture()"],
    technique="abstract interpretation of the context managers around scripted bodies, with the logger and its handlers as objects of the analysis; what they raise and leave is compared with what was logged",
    note="Series of records are bounded to the listed kinds, results of polls to scripts of a few values; the browser (DisplayFixture) is not covered.",
)



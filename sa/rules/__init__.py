RULES = {
    "C01": ("bounds", "Every evaluated point and the solution respect the bounds"),
    "C02": ("core", "The incumbent is one evaluated point, changed only by acceptance"),
    "C03": ("accept", "A candidate is accepted exactly when it is finite and improves enough"),
    "C04": ("loop", "Iterations and evaluations stay within the budget"),
    "C13": ("loop", "Convergence is declared exactly when a tolerance is met"),
    "C09": ("hist", "Stored points and evaluations are never lost, moved or mixed up"),
    "C05": ("evalr", "Evaluations are batched, filed and sanitised correctly"),
    "C06": ("fit", "Infinite values never reach a model fit"),
    "C10": ("hist", "Retrieved points and evaluations belong together"),
    "C11": ("adapt", "The radius follows the quality of the step and stays within its limits"),
    "C12": ("adapt", "The number of evaluations per point adapts to the noise within its limits"),
    "C07": ("determ", "Runs are reproducible"),
    "C08": ("own", "Data of the caller and recorded data are never modified"),
    "C14": ("solve", "The subproblem solution never predicts a worsening"),
    "C19": ("record", "The record of an iteration is consistent"),
    "C23": ("record", "Model points are evaluated often enough"),
    "C21": ("algebra", "Models predict, move and aggregate by their definitions"),
    "C15": ("filters", "Filters keep points with their indices and never drop the incumbent"),
    "C22": ("points", "Model points are topped up, dropped and replaced as configured"),
    "C20": ("samplers", "Samplers return new points of the trustregion as configured"),
    "C16": ("configure", "Arguments and options reach the component they configure"),
    "C24": ("noise", "Noise is estimated, simulated and overcome as specified"),
    "C25": ("batch", "The batch of the acceptance step is filled as configured"),
    "C17": ("usage", "No path ends in an error of use"),
    "C26": ("fits", "Fits minimise the penalised squared residuals of the model they return"),
    "C27": ("fallback", "Fallback solvers minimise the model within the unit region"),
    "C18": ("geometry", "Trustregions and their maps are consistent"),
}
